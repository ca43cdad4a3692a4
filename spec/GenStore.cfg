CONSTANTS MaxRuns = 1 Careful = TRUE
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
