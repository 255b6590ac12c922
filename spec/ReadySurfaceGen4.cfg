CONSTANTS N = 4 GEN = TRUE
SPECIFICATION Spec
INVARIANT SameAnswer Precondition Complete EmitHist
CHECK_DEADLOCK FALSE
