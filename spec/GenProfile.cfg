CONSTANTS MaxLen = 4 MaxT = 5 NLevels = 1
INIT GenInit
NEXT GenNext
CHECK_DEADLOCK FALSE
