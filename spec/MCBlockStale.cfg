SPECIFICATION Spec
CONSTANTS
  Design = "stale"
  MaxBlocks = 2
INVARIANTS Right Prefix Bounded

CHECK_DEADLOCK FALSE
