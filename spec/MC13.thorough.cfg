CONSTANTS NW = 5 Scores = {0, 1, 3} MaxK = 6 Spare = TRUE
SPECIFICATION Spec
INVARIANT Correct
PROPERTY Ends
CHECK_DEADLOCK FALSE
