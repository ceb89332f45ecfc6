SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  MaxTests = 2
INVARIANT Inv
CHECK_DEADLOCK FALSE
