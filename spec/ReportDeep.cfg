SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  MaxTests = 3
INVARIANT Inv
CHECK_DEADLOCK FALSE
