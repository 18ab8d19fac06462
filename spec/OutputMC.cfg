SPECIFICATION Spec
INVARIANTS Ordered Steps Monitored
CHECK_DEADLOCK FALSE
