CONSTANTS NB = 3 NC = 3 TO = 2 MaxNow = 6 LEN = 0 MaxSent = 2
SPECIFICATION Spec
INVARIANT Custody Collected
CHECK_DEADLOCK FALSE
