CONSTANTS MaxRuns = 4 Careful = FALSE
INIT Init
NEXT Next
INVARIANTS Known NoMixture  RightReuse
CHECK_DEADLOCK FALSE
