CONSTANTS MaxLen = 7 MaxN = 9
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
