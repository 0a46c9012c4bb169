INIT Init
NEXT Next
CONSTANT Deep = TRUE
INVARIANT Check
CHECK_DEADLOCK FALSE
