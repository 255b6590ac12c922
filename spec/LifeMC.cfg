CONSTANTS Local = {"a", "b"}  Remote = {"r"}  Closes = TRUE  Stops = TRUE
SPECIFICATION Spec
INVARIANTS TypeOK Owned
PROPERTIES NobodyLeft Noticed
CHECK_DEADLOCK FALSE
