CONSTANTS
 Deep = {1, 2}
 MaxOps = 5
INIT Init
NEXT Next
INVARIANTS Shows
CHECK_DEADLOCK FALSE
