CONSTANTS MaxRuns = 3 Careful = TRUE
INIT Init
NEXT Next
INVARIANTS Known NoMixture Complete RightReuse
CHECK_DEADLOCK FALSE
