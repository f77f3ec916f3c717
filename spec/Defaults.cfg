SPECIFICATION Spec
CONSTANTS Calls = 2
 Fault = "none"
INVARIANTS Given Default Same Different
CHECK_DEADLOCK FALSE
