CONSTANTS N = 2 MaxM = 3 Kills = 1 LEN = 0
SPECIFICATION Spec
INVARIANT Sound
INVARIANT ClosedRight
CHECK_DEADLOCK FALSE
