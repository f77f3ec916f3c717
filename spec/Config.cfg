SPECIFICATION Spec
CONSTANT
 Vals = {1, 2}
 Records = 2
 Fault = "none"
INVARIANT Refused
INVARIANT Done
INVARIANT Effective
CHECK_DEADLOCK FALSE
PROPERTY Ends
