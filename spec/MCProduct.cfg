CONSTANTS
  N = 3
  D = 4
  Weights = {0, 1, 2, 4}
  NStates = 1
  TargetSets <- AllTargets
  Thresholds = {0}
  Kind = "product"
INIT Init
NEXT Next
INVARIANTS Bounded Correct Ends
CHECK_DEADLOCK FALSE
