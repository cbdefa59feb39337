SPECIFICATION Spec
CONSTANTS MaxObjs = 2  MaxRows = 2  MaxLen = 3  Gen = FALSE
INVARIANTS KktSound
PROPERTIES Isolated
VIEW View2
CHECK_DEADLOCK FALSE
