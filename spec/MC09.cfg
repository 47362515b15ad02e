CONSTANTS MaxWords = 2 MaxWord = 2
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
