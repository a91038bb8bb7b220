SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  KJ <- KJ5
  NV = 2
  MaxOps = 40
  MaxKeys = 9
  Out = FALSE
