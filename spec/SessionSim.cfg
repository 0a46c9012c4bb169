INIT Init
NEXT Next
CONSTANTS Texts = 4
MaxFiles = 5
MaxGens = 3
MaxLen = 24
Kinds <- K3
INVARIANT Emit
CHECK_DEADLOCK FALSE
