SPECIFICATION Spec
CONSTANT
 N = 6
 Fault = "interleaved"
INVARIANT RefusedUntouched
INVARIANT Decided
INVARIANT AllWritten
CHECK_DEADLOCK FALSE
