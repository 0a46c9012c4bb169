INIT Init
NEXT Next
CONSTANT MaxEdits = 12
CONSTANT Rough = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
