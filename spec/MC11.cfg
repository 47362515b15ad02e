CONSTANTS Vs = {0, 1, 3, 4, 7} Ss = {0, 1, 3, 6, 7, 8} Ns = {0, 1, 2, 5, 6} Ms = {0, 1, 4} Late = TRUE
 NSLOT <- MC1
 NFILE <- MC1
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
