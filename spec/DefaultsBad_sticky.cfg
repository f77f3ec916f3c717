SPECIFICATION Spec
CONSTANTS Calls = 2
 Fault = "sticky"
INVARIANTS Default
CHECK_DEADLOCK FALSE
