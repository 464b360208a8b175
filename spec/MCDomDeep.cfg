CONSTANTS DEPTH = 3
          MAXNODES = 13
          EMIT = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS Links OrderIsTotal TextDenotesTree AxesPartition AxesInverse
PROPERTY Steps
CHECK_DEADLOCK FALSE
