SPECIFICATION Spec
CONSTANTS Sources <- MCSources
 Vals <- MCVals
 Length = 4
 MaxSpikes = 3
 Fault = "none"
INVARIANTS Lowers OneCopy Begins
CHECK_DEADLOCK FALSE
