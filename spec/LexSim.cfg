INIT SimInit
NEXT SimEdit
INVARIANT MeaningWrites
INVARIANT Emit
CHECK_DEADLOCK FALSE
