CONSTANTS SIZE = "large" NP = 5 CRASH = 1 DROP = 0 GEN = FALSE
SPECIFICATION Spec
INVARIANT Sound Custody Exclusive Nobody

CHECK_DEADLOCK FALSE
