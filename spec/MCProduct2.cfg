CONSTANTS
  N = 3
  D = 4
  Weights = {0, 2, 4}
  NStates = 2
  TargetSets <- OneTarget
  Thresholds = {0}
  Kind = "product"
INIT Init
NEXT Next
INVARIANTS Bounded Correct Ends
CHECK_DEADLOCK FALSE
