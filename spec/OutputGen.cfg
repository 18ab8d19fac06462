INIT Init
NEXT Next
CONSTANT Depth = 30
INVARIANT Emit
CHECK_DEADLOCK FALSE
