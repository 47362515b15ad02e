CONSTANTS
 MaxVal = 2
 Buckets = {1, 2, 3}
INIT Init
NEXT Next
INVARIANTS Parsed Restores
CHECK_DEADLOCK FALSE
