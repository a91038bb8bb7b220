SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  KN <- KN4
  VALS <- VALS8
  PERKEY = TRUE
  Light = TRUE
  Faults = 0
  Thaws = 0
  MaxOps = 30
  MaxKeys = 4
  Out = FALSE
VIEW view
CONSTRAINT Bounded
INVARIANTS Canonical Lookups Durable Tidy RootOk
