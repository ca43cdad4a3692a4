CONSTANTS Len0 = 4 Temps = {900, 1399, 1400, 1900}
SPECIFICATION Spec
INVARIANTS DelayIsFirst NoneMissed ReachesEnd ErrorOnlyOnSample FailedBeforeIgnitionIsZero
PROPERTY Terminates
CHECK_DEADLOCK FALSE
