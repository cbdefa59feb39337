SPECIFICATION Spec
CONSTANTS MaxObjs = 1  MaxRows = 0  MaxLen = 0  Gen = FALSE
INVARIANTS Sound Separates
CHECK_DEADLOCK FALSE
