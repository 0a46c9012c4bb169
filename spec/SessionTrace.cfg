INIT Init
NEXT Next
CONSTANTS Texts = 4
MaxFiles = 9
MaxGens = 9
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
