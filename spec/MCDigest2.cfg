SPECIFICATION Spec
CONSTANTS
  Objs = {1, 2}
  MaxMsg = 5
  MaxWrite = 5
  Alphabet = {0, 1}
  Restores = FALSE
INVARIANTS StateIsMessage SumIsMessage FlagRight
PROPERTIES FlagSticky Isolation
CHECK_DEADLOCK FALSE
