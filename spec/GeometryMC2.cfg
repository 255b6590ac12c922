CONSTANTS MaxW = 2 MaxC = 1 MaxTot = 3 NDim = 2 MaxQ = 1
SPECIFICATION Spec
INVARIANT InvTiling InvLevels InvQuery
CHECK_DEADLOCK FALSE
