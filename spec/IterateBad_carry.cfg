SPECIFICATION Spec
CONSTANT
 E = 2
 G = 2
 Mode = "carry"
INVARIANT Complete
CHECK_DEADLOCK FALSE
