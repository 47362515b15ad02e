CONSTANT MaxLen = 5
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
