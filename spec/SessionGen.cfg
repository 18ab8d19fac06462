INIT Init
NEXT Next
CONSTANT Depth = 26
INVARIANT Emit
CHECK_DEADLOCK FALSE
