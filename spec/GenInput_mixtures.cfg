CONSTANTS Deep = TRUE GenWhat = "mixtures"
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
