SPECIFICATION Spec
CONSTANT
 Fault = "overwrite"
 MaxStreams = 4
 MaxOps = 6
INVARIANT Frame
INVARIANT Logged
INVARIANT OwnLog
CHECK_DEADLOCK FALSE
