CONSTANTS SIZE = "gen" NP = 24 CRASH = 3 DROP = 2 GEN = TRUE
SPECIFICATION Spec
INVARIANT Emit Sound
CHECK_DEADLOCK FALSE
