CONSTANTS
 Words = {1, 2, 3}
 MaxLines = 3
INIT Init
NEXT Next
INVARIANTS Outcome Segments
CHECK_DEADLOCK FALSE
