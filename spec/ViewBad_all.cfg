SPECIFICATION Spec
CONSTANTS MaxTraces = 3
 Steps = 5
 Fault = "all"
INVARIANTS ReadBack Methods Reported Agreed
CHECK_DEADLOCK FALSE
