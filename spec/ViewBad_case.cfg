SPECIFICATION Spec
CONSTANTS MaxTraces = 3
 Steps = 5
 Fault = "case"
INVARIANTS ReadBack Methods Reported Agreed
CHECK_DEADLOCK FALSE
