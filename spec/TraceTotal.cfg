SPECIFICATION Spec
INVARIANT TypeOK
PROPERTY EverAnswered
CHECK_DEADLOCK FALSE
