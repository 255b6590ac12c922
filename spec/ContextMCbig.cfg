CONSTANTS MaxLen = 2 MaxEntries = 2
SPECIFICATION Spec
INVARIANT Survives
CHECK_DEADLOCK FALSE
