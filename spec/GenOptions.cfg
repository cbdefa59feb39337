SPECIFICATION Spec
CONSTANTS MaxLen = 7  Gen = TRUE  Use = {}
INVARIANTS TypeOK Emit
CHECK_DEADLOCK FALSE
