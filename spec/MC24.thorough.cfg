CONSTANTS
 Names = {"a", "b"}
 Inodes = {1, 2, 3}
 Fds = {1}
 Values = {1, 2, 3}
 Replace = TRUE
 MaxOps = 8
INIT Init
NEXT Next
INVARIANTS Replaced Whole MapStays
CHECK_DEADLOCK FALSE
