INIT Init
NEXT Next
INVARIANT WriteMeans
INVARIANT MeaningWrites
INVARIANT Emit
CHECK_DEADLOCK FALSE
