SPECIFICATION Spec
CONSTANT
 N = 3
 Restore = "success"
 Prepare = "inside"
INVARIANT Inv
CHECK_DEADLOCK FALSE
