CONSTANTS
 Threads = {1, 2}
 Words = {1, 2}
 Calls = 2
 Temp = "own"
INIT Init
NEXT Next
INVARIANT Sequential
CHECK_DEADLOCK FALSE
