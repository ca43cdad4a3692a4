CONSTANTS MaxSide = 1
INIT Init
NEXT GenNext
CHECK_DEADLOCK FALSE
