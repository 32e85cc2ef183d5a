SPECIFICATION Spec
CONSTANTS
  Objs = {1}
  MaxMsg = 10
  MaxWrite = 9
  Alphabet = {0, 1}
  Restores = FALSE
INVARIANTS StateIsMessage SumIsMessage FlagRight StateExact BufferShort
PROPERTIES FlagSticky
CHECK_DEADLOCK FALSE
