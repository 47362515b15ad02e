CONSTANTS
 WordLists <- WL1
 StorageKinds = {"nd", "pqn"}
 Orders = "standard"
 Bytes = {0, 1, 2, 6, 255}
INIT Init
NEXT Next
INVARIANTS RoundTrip Corrupted
CHECK_DEADLOCK FALSE
