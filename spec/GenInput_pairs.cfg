CONSTANTS Deep = TRUE GenWhat = "pairs"
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
