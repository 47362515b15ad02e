CONSTANTS
 Deep = {1, 2, 3}
 MaxOps = 7
INIT Init
NEXT Next
INVARIANTS Shows Apart
CHECK_DEADLOCK FALSE
