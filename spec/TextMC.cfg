SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Days = 12000
  MaxHm = 1
INVARIANT Inv
CHECK_DEADLOCK FALSE
