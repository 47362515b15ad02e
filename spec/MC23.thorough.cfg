CONSTANTS
 Size = 14
 MaxPiece = 5
 MaxBuf = 9
 Reports = {"piece", "close"}
INIT Init
NEXT Next
INVARIANTS Outcome Prefix
CHECK_DEADLOCK FALSE
