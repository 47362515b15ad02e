CONSTANTS
 Words = {1, 2, 3, 4}
 MaxLines = 4
INIT Init
NEXT Next
INVARIANTS Outcome Segments
CHECK_DEADLOCK FALSE
