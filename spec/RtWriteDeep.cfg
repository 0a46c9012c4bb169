INIT Init
NEXT Next
CONSTANT PerRoot = 25
INVARIANT Emit
CHECK_DEADLOCK FALSE
