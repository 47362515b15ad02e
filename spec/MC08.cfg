CONSTANTS MaxNgrams = 3 MaxWord = 3
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
