SPECIFICATION Spec
CONSTANTS
  Objs = {1}
  MaxMsg = 14
  MaxWrite = 13
  Alphabet = {0, 1}
  Restores = FALSE
INVARIANTS StateIsMessage SumIsMessage FlagRight StateExact BufferShort
PROPERTIES FlagSticky
CHECK_DEADLOCK FALSE
