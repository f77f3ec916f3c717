SPECIFICATION Spec
CONSTANT
 E = 2
 S = 2
 N = 3
 Lo = 13
 Hi = 23
 Mode = "stale"
INVARIANT Right
CHECK_DEADLOCK FALSE
