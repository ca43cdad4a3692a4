CONSTANTS Unique = FALSE Programs = "none"
INIT Init
NEXT Next
INVARIANTS Correct OnlyOrder
CHECK_DEADLOCK FALSE
