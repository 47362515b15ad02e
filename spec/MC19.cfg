CONSTANTS
 MaxRows = 2
 Chars = {97, 160}
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
