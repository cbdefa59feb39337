SPECIFICATION Spec
CONSTANTS MaxLen = 3  Gen = FALSE  Use = {"solution_limit", "number_before_trust", "nlp_failure_behavior"}
INVARIANTS TypeOK FullWins Defined DefaultKept LimitsNeverZero
PROPERTY ReadStays
VIEW View
CHECK_DEADLOCK FALSE
