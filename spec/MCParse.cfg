CONSTANTS LEN = 4
          EMIT = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS Agree Spacing Balance Printed
CHECK_DEADLOCK FALSE
