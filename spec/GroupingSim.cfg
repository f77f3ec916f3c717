SPECIFICATION GSpec
CONSTANTS
  Prefixes = {"a", "b", "c", "d", "e"}
  Comps = {"Z", "N", "E"}
  Keys = {0, 1, 2}
  MaxLen = 14
  Sizes = {{}, {1}, {2}, {3}, {2, 3}, {1, 3}, {4}}
CHECK_DEADLOCK FALSE
