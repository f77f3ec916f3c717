SPECIFICATION Spec
CONSTANTS Calls = 2
 Fault = "early"
INVARIANTS Default
CHECK_DEADLOCK FALSE
