SPECIFICATION Spec
CONSTANTS MaxLen = 1  Gen = FALSE  Use = {"solution_limit", "number_before_trust", "variable_selection", "algorithm"}
INVARIANTS TypeOK FullWins Defined DefaultKept LimitsNeverZero
PROPERTY ReadStays
VIEW View
CHECK_DEADLOCK FALSE
