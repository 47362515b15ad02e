CONSTANTS
 MaxRows = 2
 Chars = {97, 160}
 Comps = {0, 538976266, 1065353216}
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
