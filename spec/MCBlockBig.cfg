SPECIFICATION Spec
CONSTANTS
  Design = "generic"
  MaxBlocks = 3
INVARIANTS Right Prefix Bounded
PROPERTIES Ends
CHECK_DEADLOCK FALSE
