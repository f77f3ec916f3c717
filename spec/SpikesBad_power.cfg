SPECIFICATION Spec
CONSTANTS Sources <- MCSources
 Vals <- MCVals
 Length = 4
 MaxSpikes = 3
 Fault = "power"
INVARIANTS Lowers
CHECK_DEADLOCK FALSE
