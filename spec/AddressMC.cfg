CONSTANTS Ips = {"10.0.0.1", "10.0.0.2"} MaxTries = 3
SPECIFICATION Spec
INVARIANTS Right RightPort
PROPERTY Ends
CHECK_DEADLOCK FALSE
