CONSTANTS MaxWord = 2 MaxQuery = 3
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
