SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  KJ <- KJ4
  NV = 2
  MaxOps = 40
  MaxKeys = 9
  Out = FALSE
VIEW view
CONSTRAINT Bounded
INVARIANTS Minimal AllReachable RootWritten LeavesCounted RetiredExactly
