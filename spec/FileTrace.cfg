INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT MarkBias = 0
