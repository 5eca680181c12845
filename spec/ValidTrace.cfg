INIT Init
NEXT Next
INVARIANT Reached
CHECK_DEADLOCK FALSE
