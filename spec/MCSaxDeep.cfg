CONSTANTS N = 5
          EMIT = TRUE
SPECIFICATION Spec
INVARIANTS TypeOK EofStays WrittenAgain Accepted TreeKept
PROPERTIES Progress Terminates
CHECK_DEADLOCK FALSE
