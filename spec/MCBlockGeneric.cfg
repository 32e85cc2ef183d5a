SPECIFICATION Spec
CONSTANTS
  Design = "generic"
  MaxBlocks = 2
INVARIANTS Right Prefix Bounded
PROPERTIES Ends
CHECK_DEADLOCK FALSE
