CONSTANTS
  N = 4
  D = 2
  Weights = {0, 1, 2}
  NStates = 1
  TargetSets <- OneTarget
  Thresholds = {0}
  Kind = "product"
INIT Init
NEXT Next
INVARIANTS Bounded Correct Ends
CHECK_DEADLOCK FALSE
