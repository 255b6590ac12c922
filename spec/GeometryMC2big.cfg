CONSTANTS MaxW = 2 MaxC = 2 MaxTot = 4 NDim = 2 MaxQ = 1
SPECIFICATION Spec
INVARIANT InvTiling InvLevels InvQuery
CHECK_DEADLOCK FALSE
