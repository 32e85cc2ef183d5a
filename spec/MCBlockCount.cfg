SPECIFICATION Spec
CONSTANTS
  Design = "count"
  MaxBlocks = 2
INVARIANTS Right Prefix Bounded

CHECK_DEADLOCK FALSE
