INIT Init
NEXT Next
CONSTANT MaxEdits = 10
INVARIANT Emit
CHECK_DEADLOCK FALSE
