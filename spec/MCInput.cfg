CONSTANTS Deep = FALSE GenWhat = ""
INIT Init
NEXT Next
INVARIANTS Decides Required
CHECK_DEADLOCK FALSE
