SPECIFICATION Spec
CONSTANTS
  Design = "rekeep"
  MaxBlocks = 2
INVARIANTS Right Prefix Bounded

CHECK_DEADLOCK FALSE
