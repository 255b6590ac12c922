CONSTANTS N = 4 MaxM = 1000 Kills = 1 LEN = 30
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
