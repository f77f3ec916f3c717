SPECIFICATION Spec
CONSTANT
 N = 9
 Len0 = 8
 Actual = TRUE
INVARIANT AtDelay
CHECK_DEADLOCK FALSE
