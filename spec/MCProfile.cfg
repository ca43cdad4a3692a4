CONSTANTS MaxLen = 5 MaxT = 4 NLevels = 5
SPECIFICATION Spec
INVARIANTS NoneEmpty FirstOnly Ordered LastLevel
PROPERTY Terminates
CHECK_DEADLOCK FALSE
