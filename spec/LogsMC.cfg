CONSTANTS NW = 2 MaxWrites = 5 Shared = TRUE
SPECIFICATION Spec
INVARIANT Kept
CHECK_DEADLOCK FALSE
