CONSTANTS
 WordLists <- WL
 StorageKinds = {"nd", "pq", "pqn", "pqp", "pqnp"}
 Orders = "any"
 Bytes = {0, 1, 2, 6, 255}
INIT Init
NEXT Next
INVARIANTS Components
CHECK_DEADLOCK FALSE
