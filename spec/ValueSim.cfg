SPECIFICATION SimSpec
INVARIANT Inv
INVARIANT Emit
CHECK_DEADLOCK FALSE
