SPECIFICATION Spec
CONSTANT
 Groups = {1, 2}
 Events = {1, 2}
 Dirs = {1, 2, 3}
 MaxOps = 3
 Fault = "abort"
INVARIANT Complete
INVARIANT Frame
INVARIANT Identity
CHECK_DEADLOCK FALSE
