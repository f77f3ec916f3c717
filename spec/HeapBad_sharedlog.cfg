SPECIFICATION Spec
CONSTANT
 Fault = "sharedlog"
 MaxStreams = 4
 MaxOps = 6
INVARIANT Frame
INVARIANT Logged
CHECK_DEADLOCK FALSE
