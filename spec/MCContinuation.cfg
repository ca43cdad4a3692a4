SPECIFICATION Spec
CONSTANTS M = 9
          DsMax = 2
          V = 5
          Gaps = 4
          Tenth <- TenthDef
INVARIANTS UpperFalls Reported HasPoints Bracketed FailsHonestly
PROPERTIES Settled Ends
CHECK_DEADLOCK FALSE
