CONSTANTS Deep = TRUE GenWhat = "tops"
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
