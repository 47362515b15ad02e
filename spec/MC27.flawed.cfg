CONSTANTS
 Steps = 4
 Always = FALSE
 MaxCalls = 4
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
