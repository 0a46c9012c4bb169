INIT Init
NEXT Next
CONSTANTS Insertions <- I1
Widths <- W1
CHECK_DEADLOCK FALSE
