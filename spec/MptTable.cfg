SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  KN <- KN4
  VALS <- VALS8
  PERKEY = TRUE
  Light = TRUE
  Faults = 0
  MaxOps = 30
  MaxKeys = 4
  Out = FALSE
