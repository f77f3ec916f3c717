SPECIFICATION Spec
CONSTANTS Sources <- MCSources
 Vals <- MCVals
 Length = 4
 MaxSpikes = 3
 Fault = "signed"
INVARIANTS OneCopy
CHECK_DEADLOCK FALSE
