SPECIFICATION Spec
CONSTANTS D = 2
 U = 1
 Vals = {1, 2, 3}
 Slack = 1
INVARIANT LoopInv
INVARIANT CertInv
INVARIANT ClaimRight
INVARIANT NoFalseCert
CHECK_DEADLOCK FALSE
