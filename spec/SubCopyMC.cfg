SPECIFICATION Spec
CONSTANTS
 N = 4
 M = 4
INVARIANTS MaxOk
PROPERTIES Placed
CHECK_DEADLOCK FALSE
