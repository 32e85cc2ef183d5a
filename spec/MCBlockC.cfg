SPECIFICATION Spec
CONSTANTS
  Design = "c"
  MaxBlocks = 2
INVARIANTS Right Prefix Bounded
PROPERTIES Ends
CHECK_DEADLOCK FALSE
