SPECIFICATION Spec
CONSTANTS
 N = 6
 M = 6
INVARIANTS MaxOk
PROPERTIES Placed
CHECK_DEADLOCK FALSE
