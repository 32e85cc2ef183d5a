SPECIFICATION Spec
CONSTANTS
  Design = "early"
  Procs = {1, 2}
  Calls = 2
INVARIANTS NoRace NoneMissed TableFull

CHECK_DEADLOCK FALSE
