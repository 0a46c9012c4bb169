INIT Init
NEXT Next
CONSTANT MaxEdits = 8
CONSTANT Rough = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
