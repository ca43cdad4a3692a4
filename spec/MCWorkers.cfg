CONSTANTS MaxCases = 4 MaxWorkers = 5 Fixed = FALSE
SPECIFICATION Spec
INVARIANTS OnceEach Bounded Independent FailureKnown
PROPERTY Ends
CHECK_DEADLOCK FALSE
