SPECIFICATION Spec
CONSTANT
 Ids = {1, 2}
 Onsets = {1, 2}
 MaxComp = 3
 ById = TRUE
 ByOnset = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
