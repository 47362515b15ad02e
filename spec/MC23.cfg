CONSTANTS
 Size = 5
 MaxPiece = 2
 MaxBuf = 3
 Reports = {"piece", "close"}
INIT Init
NEXT Next
INVARIANTS Outcome Prefix
CHECK_DEADLOCK FALSE
