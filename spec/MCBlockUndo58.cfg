SPECIFICATION Spec
CONSTANTS
  Design = "undo58"
  MaxBlocks = 2
INVARIANTS Right Prefix Bounded

CHECK_DEADLOCK FALSE
