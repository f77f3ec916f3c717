SPECIFICATION Spec
CONSTANTS
  Phases = {"Ps", "Sp", "Ppss"}
  Refs = {1, 2, 3}
  Slows = {1, 2}
  Templates = {1, 2}
  Fault = "norestore"
INVARIANT Independent
CHECK_DEADLOCK FALSE
