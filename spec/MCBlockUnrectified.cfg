SPECIFICATION Spec
CONSTANTS
  Design = "unrectified"
  MaxBlocks = 2
INVARIANTS Right Prefix Bounded

CHECK_DEADLOCK FALSE
