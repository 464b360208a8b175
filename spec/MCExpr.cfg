CONSTANTS LEN = 2
          EMIT = TRUE
SPECIFICATION Spec
INVARIANTS Grouping Printed
CHECK_DEADLOCK FALSE
