SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  KB <- KB3
  NV = 2
  Depth = 3
  DomainSep = TRUE
INVARIANTS Sound Complete Unique
