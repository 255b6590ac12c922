CONSTANTS MaxBlocks = 5 GEN = FALSE
SPECIFICATION Spec
INVARIANT Once BeforeNext OneOut
CHECK_DEADLOCK FALSE
