CONSTANTS
  N = 4
  D = 4
  Weights = {0, 2}
  NStates = 1
  TargetSets <- OneTarget
  Thresholds = {1}
  Kind = "reach"
INIT Init
NEXT Next
INVARIANTS Bounded Correct Ends
CHECK_DEADLOCK FALSE
