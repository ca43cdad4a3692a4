CONSTANTS MaxCases = 12 MaxWorkers = 5 Fixed = TRUE
INIT GenInit
NEXT GNext
CHECK_DEADLOCK FALSE
