SPECIFICATION Spec
CONSTANT
 N = 3
 Restore = "finally"
 Prepare = "inside"
INVARIANT Inv
CHECK_DEADLOCK FALSE
