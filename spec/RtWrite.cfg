INIT Init
NEXT Next
CONSTANT PerRoot = 10
INVARIANT Emit
CHECK_DEADLOCK FALSE
