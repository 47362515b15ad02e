CONSTANTS MaxN = 4 Ext = 2
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
