SPECIFICATION Spec
CONSTANTS
  Hp = {11000, 15000, 17500}
  Hs = {20000, 28000}
  Dz = {100, 1000}
  Ps = {500, 5755, 9000}
INVARIANTS Grows Inverse Split Legs
CHECK_DEADLOCK FALSE
