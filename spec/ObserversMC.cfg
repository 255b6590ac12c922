SPECIFICATION Spec
CONSTANTS N = 3
          MaxNotes = 4
          Copy = TRUE
INVARIANT AllTold
CHECK_DEADLOCK FALSE
