SPECIFICATION Spec
CONSTANTS
  Design = "once"
  MaxBlocks = 2
INVARIANTS Right Prefix Bounded

CHECK_DEADLOCK FALSE
