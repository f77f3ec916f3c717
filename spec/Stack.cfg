SPECIFICATION Spec
CONSTANTS
  IdSet = {"a", "b", "c"}
  Vals = {0, 1, 5}
  MaxLen = 3
  NS = 2
INVARIANTS Correct OrderFree
CHECK_DEADLOCK FALSE
