SPECIFICATION Spec
CONSTANT
 E = 2
 G = 2
 Mode = "stop"
INVARIANT Complete
CHECK_DEADLOCK FALSE
