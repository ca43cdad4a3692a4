CONSTANTS Orders2 = {1, 2, 4, 6} Second = FALSE
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
