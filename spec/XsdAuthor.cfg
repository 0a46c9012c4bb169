INIT Init
NEXT Next
CONSTANT MaxTops = 6
INVARIANT Emit
CHECK_DEADLOCK FALSE
