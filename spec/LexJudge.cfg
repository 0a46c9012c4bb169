INIT Init
NEXT Next
INVARIANT Tell
CHECK_DEADLOCK FALSE
