SPECIFICATION Spec
CONSTANTS M = 11
          DsMax = 3
          V = 6
          Gaps = 4
          Tenth <- TenthDef
INVARIANTS UpperFalls Reported HasPoints Bracketed FailsHonestly
PROPERTIES Settled Ends
CHECK_DEADLOCK FALSE
