SPECIFICATION Spec
CONSTANT
 Vals = {1}
 Records = 2
 Fault = "late"
INVARIANT Refused
INVARIANT Done
INVARIANT Effective
CHECK_DEADLOCK FALSE
