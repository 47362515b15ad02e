CONSTANTS MaxWord = 4 MaxVal = 2
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
