CONSTANTS
 MaxRows = 2
 Chars = {49, 160, 8239}
 Comps = {0, 538976266, 1065353216}
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
