SPECIFICATION Spec
CONSTANTS
  Design = "front"
  Procs = {1, 2}
  Calls = 2
INVARIANTS NoRace NoneMissed TableFull

CHECK_DEADLOCK FALSE
