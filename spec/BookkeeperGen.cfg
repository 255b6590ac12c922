CONSTANTS NB = 3 NC = 3 TO = 2 MaxNow = 1000 LEN = 30 MaxSent = 100
SPECIFICATION Spec
INVARIANT Custody Collected Emit
CHECK_DEADLOCK FALSE
