INIT Init
NEXT Next
CONSTANTS Insertions <- I2
Widths <- W2
CHECK_DEADLOCK FALSE
