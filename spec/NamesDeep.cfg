SPECIFICATION Spec
CONSTANTS
  MaxMembers = 6
INVARIANT Inv
CHECK_DEADLOCK FALSE
