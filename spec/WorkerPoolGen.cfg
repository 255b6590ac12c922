CONSTANTS N = 3 MaxW = 40 LEN = 25 MaxFail = 2
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
