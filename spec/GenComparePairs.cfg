CONSTANTS Unique = TRUE Programs = "pairs"
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
