CONSTANTS
 Acts = {"explicit", "write", "load", "probe", "istart", "inext", "look"}
 Care = TRUE
 Vs <- V2
INIT Init
NEXT Next
INVARIANT Commute
CHECK_DEADLOCK FALSE
