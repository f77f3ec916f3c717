SPECIFICATION Spec
CONSTANT
 Ids = {1, 2}
 Onsets = {1, 2}
 MaxComp = 3
 ById = FALSE
 ByOnset = TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE
