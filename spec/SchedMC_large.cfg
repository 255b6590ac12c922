CONSTANTS SIZE = "large" GEN = FALSE
SPECIFICATION Spec
INVARIANT NoConflict ReadsDone NotStuck Bounded Orphans OrphansUntouched Counts Confluent
CHECK_DEADLOCK FALSE
