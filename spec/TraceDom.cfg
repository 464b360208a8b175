SPECIFICATION Spec
INVARIANT TreeInv
CHECK_DEADLOCK FALSE
