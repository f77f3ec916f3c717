SPECIFICATION Spec
CONSTANTS MaxTraces = 3
 Steps = 5
 Fault = "none"
INVARIANTS ReadBack Methods Reported Agreed
CHECK_DEADLOCK FALSE
