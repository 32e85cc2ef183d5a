SPECIFICATION Spec
CONSTANTS
  Design = "first"
  MaxBlocks = 2
INVARIANTS Right Prefix Bounded

CHECK_DEADLOCK FALSE
