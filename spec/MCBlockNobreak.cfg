SPECIFICATION Spec
CONSTANTS
  Design = "nobreak"
  MaxBlocks = 2
INVARIANTS Right Prefix Bounded

CHECK_DEADLOCK FALSE
