SPECIFICATION Spec
CONSTANTS Calls = 2
 Fault = "consumed"
INVARIANTS Given
CHECK_DEADLOCK FALSE
