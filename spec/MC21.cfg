CONSTANTS
 Bytes = {65, 128, 143, 159, 160, 191, 192, 194, 224, 225, 237, 240, 241, 244, 245, 255}
 MaxLen = 3
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
