CONSTANTS Depth = 30
 Kinds <- Kinds12
 MaxBurst = 1
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
