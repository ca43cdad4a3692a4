CONSTANTS
  N = 3
  LevelSet = {50, 5000, 35000}
  Weights = {0, 1, 3}
  Limits = {2, 5}
  Uppers = {0, 20000}
  Graphs = {"DRG", "none"}
  Sas = {"none", "initial", "greedy"}
SPECIFICATION Spec
INVARIANTS ProtectedKept ErrorIsReal WithinLimit AcceptedWithin LimboOnly
PROPERTIES Terminates Monotone Shrinks
CHECK_DEADLOCK FALSE
