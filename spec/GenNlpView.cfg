SPECIFICATION Spec
CONSTANTS MaxObjs = 3  MaxRows = 5  MaxLen = 14  AllFps = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
