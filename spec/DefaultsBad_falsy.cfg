SPECIFICATION Spec
CONSTANTS Calls = 2
 Fault = "falsy"
INVARIANTS Given
CHECK_DEADLOCK FALSE
