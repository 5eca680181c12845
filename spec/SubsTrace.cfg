INIT Init
NEXT Next
VIEW View
INVARIANT Reached
CHECK_DEADLOCK FALSE
