SPECIFICATION Spec
CONSTANTS
  Design = "inplace"
  Procs = {1, 2}
  Depth = 2
INVARIANTS NoRace NoneWrong AtRest BufsKept

CHECK_DEADLOCK FALSE
