SPECIFICATION Spec
CONSTANTS
  MaxTr = 5
  MaxOps = 4
CHECK_DEADLOCK FALSE
