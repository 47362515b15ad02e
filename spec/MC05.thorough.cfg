CONSTANTS
 WordLists <- WL2
 StorageKinds = {"nd", "pq", "pqn", "pqp", "pqnp"}
 Orders = "standard"
 Bytes = {0, 1, 2, 3, 5, 6, 7, 8, 10, 70, 127, 128, 200, 255}
INIT Init
NEXT Next
INVARIANTS RoundTrip Corrupted
CHECK_DEADLOCK FALSE
