SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Days = 57000
  MaxHm = 9
INVARIANT Inv
CHECK_DEADLOCK FALSE
