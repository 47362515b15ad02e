CONSTANTS NW = 4 Scores = {0, 1, 3} MaxK = 6 Spare = FALSE
SPECIFICATION Spec
INVARIANT Correct
CHECK_DEADLOCK FALSE
