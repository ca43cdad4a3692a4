CONSTANTS Len0 = 3 Temps = {1399, 1400, 1900}
INIT GenInit
NEXT GenNext
CHECK_DEADLOCK FALSE
