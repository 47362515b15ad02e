CONSTANTS MaxVal = 2
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
