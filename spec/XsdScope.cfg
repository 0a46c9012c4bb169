INIT Init
NEXT Next
CONSTANT Deep = FALSE
INVARIANT Check
CHECK_DEADLOCK FALSE
