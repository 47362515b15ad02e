CONSTANTS
 Bytes = {65, 128, 159, 160, 191, 194, 224, 225, 237, 240, 244, 255}
 MaxLen = 5
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
