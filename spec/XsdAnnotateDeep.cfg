INIT Init
NEXT Next
CONSTANT Versions = 8
INVARIANT Sound
INVARIANT Emit
CHECK_DEADLOCK FALSE
