SPECIFICATION Spec
INVARIANTS TypeOK Valid Steps Monitored
CHECK_DEADLOCK FALSE
