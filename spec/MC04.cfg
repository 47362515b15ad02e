CONSTANTS
 WordLists <- WL
 StorageKinds = {"nd", "pqn"}
 Orders = "standard"
 Bytes = {0, 1, 2, 6, 255}
INIT Init
NEXT Next
INVARIANTS NoTruncation
CHECK_DEADLOCK FALSE
