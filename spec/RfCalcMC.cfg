SPECIFICATION Spec
CONSTANT
 Comps = {"Z", "N", "E"}
 Records <- RecordsC
INVARIANT Documented
INVARIANT Untouched
CHECK_DEADLOCK FALSE
