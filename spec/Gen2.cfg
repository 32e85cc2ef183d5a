SPECIFICATION Spec
CONSTANTS
  Objs = {1, 2}
  Fills = {0, 55}
  MaxBlocks = 1
  MaxDepth = 5
VIEW View
INVARIANT Emit
CHECK_DEADLOCK FALSE
