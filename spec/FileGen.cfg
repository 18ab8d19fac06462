INIT Init
NEXT Next
CONSTANT Depth = 12
INVARIANT Emit
CHECK_DEADLOCK FALSE
