CONSTANTS N = 1 MaxM = 4 Kills = 1 LEN = 0
SPECIFICATION FairSpec
INVARIANT Sound
INVARIANT ClosedRight
PROPERTY Leaves
CHECK_DEADLOCK FALSE
