CONSTANTS MaxCases = 4 MaxWorkers = 5 Fixed = FALSE
INIT GenInit
NEXT GNext
CHECK_DEADLOCK FALSE
