CONSTANTS Orders2 = {1, 2, 3, 4, 6} Second = FALSE
INIT Init
NEXT Next
INVARIANTS RoundTrip Prefix
CHECK_DEADLOCK FALSE
