CONSTANTS LEN = 3
          EMIT = TRUE
SPECIFICATION Spec
INVARIANTS Grouping Printed
CHECK_DEADLOCK FALSE
