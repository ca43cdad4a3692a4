INIT Init
NEXT Next
CONSTANT Tenth <- TenthDef
CHECK_DEADLOCK FALSE
