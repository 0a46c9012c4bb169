INIT Init
NEXT Next
CONSTANTS Texts = 2
MaxFiles = 2
MaxGens = 2
MaxLen = 6
Kinds <- K2
INVARIANT Emit
CHECK_DEADLOCK FALSE
