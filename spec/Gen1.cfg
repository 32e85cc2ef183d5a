SPECIFICATION Spec
CONSTANTS
  Objs = {1}
  Fills = {0, 1, 55, 56, 63}
  MaxBlocks = 3
  MaxDepth = 5
VIEW View
INVARIANT Emit
CHECK_DEADLOCK FALSE
