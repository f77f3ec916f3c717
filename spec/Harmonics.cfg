SPECIFICATION Spec
CONSTANT CoefVals = {1, 3}
INVARIANT Recovered
CHECK_DEADLOCK FALSE
