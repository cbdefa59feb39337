SPECIFICATION Spec
CONSTANT MaxSolve = 4
INVARIANT OneReport
INVARIANT Honest
PROPERTY Ends
CHECK_DEADLOCK FALSE
