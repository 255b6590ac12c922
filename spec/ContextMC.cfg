CONSTANTS MaxLen = 1 MaxEntries = 3
SPECIFICATION Spec
INVARIANT Survives
CHECK_DEADLOCK FALSE
