CONSTANTS MaxW = 4 MaxC = 4 MaxTot = 9 NDim = 1 MaxQ = 4
SPECIFICATION Spec
INVARIANT InvTiling InvLevels InvQuery
CHECK_DEADLOCK FALSE
