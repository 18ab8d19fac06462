SPECIFICATION Spec
INVARIANTS Steps Monitored
CHECK_DEADLOCK FALSE
