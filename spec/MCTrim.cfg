CONSTANTS MaxSide = 2
INIT Init
NEXT Next
INVARIANTS Confluent Clean Rest Needed
CHECK_DEADLOCK FALSE
