CONSTANTS Unique = TRUE Programs = "single"
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
