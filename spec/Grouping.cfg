SPECIFICATION Spec
CONSTANTS
  Prefixes = {"a", "b"}
  Comps = {"Z", "N"}
  Keys = {0, 1}
  MaxLen = 4
  Sizes = {{}, {1}, {2, 3}}
INVARIANTS Partition SameIffKey InOrder Final
CHECK_DEADLOCK FALSE
