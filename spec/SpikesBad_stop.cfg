SPECIFICATION Spec
CONSTANTS Sources <- MCSources
 Vals <- MCVals
 Length = 4
 MaxSpikes = 3
 Fault = "stop"
INVARIANTS Begins
CHECK_DEADLOCK FALSE
