CONSTANTS MaxVal = 1
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
