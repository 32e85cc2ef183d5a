SPECIFICATION Spec
CONSTANTS
  Design = "asm"
  MaxBlocks = 2
INVARIANTS Right Prefix Bounded
PROPERTIES Ends
CHECK_DEADLOCK FALSE
