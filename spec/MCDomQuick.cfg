CONSTANTS DEPTH = 2
          MAXNODES = 10
          EMIT = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS Links OrderIsTotal TextDenotesTree AxesPartition AxesInverse
PROPERTY Steps
CHECK_DEADLOCK FALSE
