CONSTANTS N = 3 MaxW = 7 LEN = 0 MaxFail = 2
SPECIFICATION Spec
INVARIANT AtMost Kept Replaced
CHECK_DEADLOCK FALSE
