CONSTANTS NW = 2 MaxWrites = 7 Shared = TRUE
SPECIFICATION Spec
INVARIANT Kept
CHECK_DEADLOCK FALSE
