SPECIFICATION Spec
VIEW view
CHECK_DEADLOCK FALSE
CONSTANTS
  KJ <- KJ4
  NV = 1
  MaxBad = 1
  Fault = 0
  MaxOps = 60
  MaxKeys = 9
  Out = FALSE
CONSTRAINT Bounded
INVARIANTS Exactly OnlyTrueNodes OnlyTrueValues Complete NoEarlyRoot ValuesFirst
