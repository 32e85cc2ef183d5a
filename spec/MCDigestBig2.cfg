SPECIFICATION Spec
CONSTANTS
  Objs = {1, 2}
  MaxMsg = 5
  MaxWrite = 5
  Alphabet = {0, 1}
  Restores = TRUE
INVARIANTS StateIsMessage SumIsMessage FlagRight StateExact BufferShort
PROPERTIES FlagSticky
CHECK_DEADLOCK FALSE
