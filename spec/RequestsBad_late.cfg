SPECIFICATION Spec
CONSTANT
 N = 6
 Fault = "late"
INVARIANT RefusedUntouched
INVARIANT Decided
INVARIANT AllWritten
CHECK_DEADLOCK FALSE
