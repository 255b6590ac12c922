CONSTANTS MaxW = 3 MaxC = 3 MaxTot = 7 NDim = 1 MaxQ = 4
SPECIFICATION Spec
INVARIANT InvTiling InvLevels InvQuery
CHECK_DEADLOCK FALSE
