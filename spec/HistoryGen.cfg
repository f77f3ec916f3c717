SPECIFICATION Spec
CONSTANT Len0 = 14
CHECK_DEADLOCK FALSE
