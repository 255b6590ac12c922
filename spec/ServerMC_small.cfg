CONSTANTS SIZE = "small" NP = 5 CRASH = 1 DROP = 1 GEN = FALSE
SPECIFICATION Spec
INVARIANT Sound Custody Exclusive Nobody

CHECK_DEADLOCK FALSE
