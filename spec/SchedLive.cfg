CONSTANTS SIZE = "tiny" GEN = FALSE
SPECIFICATION FairSpec
PROPERTY Finishes
CHECK_DEADLOCK FALSE
