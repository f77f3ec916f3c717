SPECIFICATION Spec
CONSTANT
 E = 2
 G = 3
 Mode = "right"
INVARIANT Complete
CHECK_DEADLOCK FALSE
