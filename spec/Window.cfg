SPECIFICATION Spec
CONSTANTS
  Starts = {0, 3}
  Deltas = {2, 5}
  Lens = {1, 4}
  Onsets = {2, 5}
  Vals = {0, 7, 10, 12, 13, 16, 21}
  MaxOps = 3
INVARIANTS Exact OnsetKept
CHECK_DEADLOCK FALSE
