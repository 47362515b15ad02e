CONSTANTS
 MaxRows = 2
 Chars = {49, 160, 8239}
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
