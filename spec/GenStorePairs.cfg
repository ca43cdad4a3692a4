CONSTANTS MaxRuns = 1 Careful = TRUE
INIT PInit
NEXT GNext
CHECK_DEADLOCK FALSE
