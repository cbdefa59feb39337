SPECIFICATION Spec
CONSTANTS D = 1
 U = 2
 Vals = {1, 2, 3}
 Slack = 1
INVARIANT LoopInv
INVARIANT CertInv
INVARIANT ClaimRight
INVARIANT NoFalseCert
CHECK_DEADLOCK FALSE
