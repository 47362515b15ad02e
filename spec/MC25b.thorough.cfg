CONSTANTS
 Acts = {"explicit", "write", "export", "load", "probe", "istart", "inext", "look"}
 Care = TRUE
 Vs <- V3
INIT Init
NEXT Next
INVARIANT Commute
CHECK_DEADLOCK FALSE
