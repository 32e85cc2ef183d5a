SPECIFICATION Spec
CONSTANTS
  Objs = {1}
  MaxMsg = 6
  MaxWrite = 6
  Alphabet = {0, 1}
  Restores = FALSE
INVARIANTS SomePadOnly
CHECK_DEADLOCK FALSE
