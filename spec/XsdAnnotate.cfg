INIT Init
NEXT Next
CONSTANT Versions = 4
INVARIANT Sound
INVARIANT Emit
CHECK_DEADLOCK FALSE
