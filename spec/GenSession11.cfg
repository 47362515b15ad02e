CONSTANTS Depth = 16
 Kinds <- Kinds11
 MaxBurst = 1
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
