SPECIFICATION Spec
CONSTANTS MaxObjs = 2  MaxRows = 2  MaxLen = 3  AllFps = FALSE
INVARIANTS Consistent Shapes CutRow
PROPERTY Isolated
VIEW View2
CHECK_DEADLOCK FALSE
