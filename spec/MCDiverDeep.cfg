SPECIFICATION Spec
CONSTANTS BfsDepth = 1  MaxNodes = 5  MaxO = 1  Extra = FALSE
  Kinds = {"heap","dive","probed","dfs","dfsdyn"}  Stops = {FALSE, TRUE}  MaxDepths = {1, 100}  MaxBacks = {0, 1, 2}  Cmps = {"bound","depth"}  NSols = {2}
INVARIANTS NoLoss Disjoint DiveOnlyWhenDiving BacktracksBounded Finished
VIEW state
CHECK_DEADLOCK FALSE
