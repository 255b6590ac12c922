CONSTANTS MaxArgs = 4 MaxBlocks = 5
SPECIFICATION Spec
INVARIANT Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
