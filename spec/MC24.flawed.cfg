CONSTANTS
 Names = {"a", "b"}
 Inodes = {1, 2}
 Fds = {1}
 Values = {1, 2}
 Replace = FALSE
 MaxOps = 6
INIT Init
NEXT Next
INVARIANTS Replaced Whole MapStays
CHECK_DEADLOCK FALSE
