CONSTANTS MaxNgrams = 4 MaxWord = 4
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
