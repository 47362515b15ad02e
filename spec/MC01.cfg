CONSTANTS
 WordLists <- WL
 StorageKinds = {"nd", "pq", "pqn", "pqp", "pqnp"}
 Orders = "standard"
 Bytes = {0, 1, 2, 6, 255}
INIT Init
NEXT Next
INVARIANTS RoundTrip
CHECK_DEADLOCK FALSE
