SPECIFICATION Spec
CONSTANT
 Ids = {1, 2}
 Onsets = {1, 2}
 MaxComp = 4
 ById = TRUE
 ByOnset = TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE
