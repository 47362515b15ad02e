CONSTANTS
 Steps = 4
 Always = TRUE
 MaxCalls = 4
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
