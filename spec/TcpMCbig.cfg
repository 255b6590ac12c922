CONSTANTS N = 2 MaxM = 4 Kills = 2 LEN = 0
SPECIFICATION Spec
INVARIANT Sound
INVARIANT ClosedRight
CHECK_DEADLOCK FALSE
