CONSTANTS Orders2 = {1, 2, 3, 4, 6} Second = TRUE
INIT Init
NEXT Next
INVARIANTS RoundTrip Prefix
CHECK_DEADLOCK FALSE
