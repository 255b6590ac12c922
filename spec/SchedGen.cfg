CONSTANTS SIZE = "gen" GEN = TRUE
SPECIFICATION Spec
INVARIANT EmitHist
CHECK_DEADLOCK FALSE
