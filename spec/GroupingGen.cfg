SPECIFICATION GSpec
CONSTANTS
  Prefixes = {"a", "b"}
  Comps = {"Z", "N"}
  Keys = {0, 1}
  MaxLen = 3
  Sizes = {{}, {1}, {2}, {2, 3}}
CHECK_DEADLOCK FALSE
