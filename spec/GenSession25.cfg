CONSTANTS Depth = 60
 Kinds <- Kinds25
 MaxBurst = 4
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
