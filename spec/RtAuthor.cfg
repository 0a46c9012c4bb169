INIT Init
NEXT Next
CONSTANT MaxTops = 9
INVARIANT Emit
CHECK_DEADLOCK FALSE
