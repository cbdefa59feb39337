SPECIFICATION Spec
INVARIANTS Right StopLosesNothing
CHECK_DEADLOCK FALSE
