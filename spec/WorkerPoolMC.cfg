CONSTANTS N = 2 MaxW = 5 LEN = 0 MaxFail = 2
SPECIFICATION Spec
INVARIANT AtMost Kept Replaced
CHECK_DEADLOCK FALSE
