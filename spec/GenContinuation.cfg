INIT GenAll
NEXT GenNext
CONSTANTS M = 3
          DsMax = 2
          V = 3
          Gaps = 14
          Tenth <- TenthDef
CHECK_DEADLOCK FALSE
