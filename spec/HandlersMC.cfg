CONSTANTS Tty <- TtyDef Levels = {1, 2} MaxM = 4 MaxWrap = 2
SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
