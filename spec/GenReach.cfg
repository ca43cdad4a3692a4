CONSTANTS
  N = 3
  D = 4
  Weights = {0, 1, 2, 4}
  NStates = 1
  TargetSets <- AllTargets
  Thresholds = {1, 2, 3}
  Kind = "reach"
INIT Init
NEXT GenNext
CHECK_DEADLOCK FALSE
