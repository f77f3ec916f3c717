SPECIFICATION Spec
CONSTANT Len0 = 12
CHECK_DEADLOCK FALSE
