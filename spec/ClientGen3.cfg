CONSTANTS MaxBlocks = 3 GEN = TRUE
SPECIFICATION Spec
INVARIANT Once BeforeNext OneOut Emit
CHECK_DEADLOCK FALSE
