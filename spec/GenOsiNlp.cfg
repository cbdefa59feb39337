SPECIFICATION Spec
CONSTANTS MaxObjs = 3  MaxRows = 4  MaxLen = 16  Gen = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
