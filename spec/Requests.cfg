SPECIFICATION Spec
CONSTANT
 N = 6
 Fault = "none"
INVARIANT RefusedUntouched
INVARIANT Decided
INVARIANT AllWritten
PROPERTY Answered
CHECK_DEADLOCK FALSE
