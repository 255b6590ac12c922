CONSTANTS SIZE = "small" NP = 5 CRASH = 1 DROP = 1 GEN = FALSE
SPECIFICATION FairSpec
INVARIANT Sound Custody Exclusive Nobody
PROPERTY Finishes
CHECK_DEADLOCK FALSE
