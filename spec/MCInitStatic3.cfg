SPECIFICATION Spec
CONSTANTS
  Design = "static"
  Procs = {1, 2, 3}
  Calls = 2
INVARIANTS NoRace NoneMissed TableFull
PROPERTIES AllEnd
CHECK_DEADLOCK FALSE
