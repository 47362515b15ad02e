CONSTANTS MaxLen = 4 MaxN = 6
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
