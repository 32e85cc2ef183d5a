SPECIFICATION Spec
CONSTANTS
  Design = "copy"
  Procs = {1, 2}
  Depth = 2
INVARIANTS NoRace NoneWrong AtRest BufsKept
PROPERTIES AllEnd
CHECK_DEADLOCK FALSE
