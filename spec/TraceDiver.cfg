SPECIFICATION Spec
CONSTANTS BfsDepth = 4
INVARIANTS NoLoss Disjoint
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
