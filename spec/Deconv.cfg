SPECIFICATION Spec
CONSTANT
 MaxLen = 9
 MaxNum = 9
 MaxShift = 7
INVARIANT Aligned
CHECK_DEADLOCK FALSE
