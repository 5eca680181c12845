SPECIFICATION Spec
VIEW View
INVARIANT Inv
INVARIANT Emit
CHECK_DEADLOCK FALSE
