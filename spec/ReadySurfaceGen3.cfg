CONSTANTS N = 3 GEN = TRUE
SPECIFICATION Spec
INVARIANT SameAnswer Precondition Complete EmitHist
CHECK_DEADLOCK FALSE
