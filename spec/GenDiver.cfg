SPECIFICATION GSpec
CONSTANTS BfsDepth = 4  MaxNodes = 40  MaxO = 12  Extra = TRUE  HLen = 70
  Kinds = {"heap","dive","probed","dfs","dfsdyn"}  Stops = {FALSE, TRUE}  MaxDepths = {0, 1, 3, 1000000}  MaxBacks = {0, 1, 2, 5}  Cmps = {"bound","depth"}  NSols = {2, 5}
INVARIANTS Emit NoLoss Disjoint
CONSTRAINT Stop
CHECK_DEADLOCK FALSE
