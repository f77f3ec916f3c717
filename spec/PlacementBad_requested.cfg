SPECIFICATION Spec
CONSTANT
 N = 9
 Len0 = 8
 Actual = FALSE
INVARIANT AtDelay
CHECK_DEADLOCK FALSE
