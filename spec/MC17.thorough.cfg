CONSTANTS MaxWord = 3 MaxQuery = 4
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
