INIT Init
NEXT Next
PROPERTY Progress
CHECK_DEADLOCK FALSE
