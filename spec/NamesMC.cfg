SPECIFICATION Spec
CONSTANTS
  MaxMembers = 4
INVARIANT Inv
CHECK_DEADLOCK FALSE
