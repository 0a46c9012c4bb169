INIT Init
NEXT Next
CONSTANT MaxCalls = 10
INVARIANT LastCounts
INVARIANT Stable
INVARIANT Emit
CHECK_DEADLOCK FALSE
