SPECIFICATION Spec
CONSTANTS
  Objs = {1}
  MaxMsg = 6
  MaxWrite = 6
  Alphabet = {0, 1}
  Restores = TRUE
INVARIANTS StateIsMessage SumIsMessage FlagRight StateExact BufferShort
PROPERTIES FlagSticky
CHECK_DEADLOCK FALSE
