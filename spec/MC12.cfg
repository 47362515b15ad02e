CONSTANTS Vals = {1, 4} NSlot = 2 NFile = 1 InPlace = FALSE MaxCells = 6
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
