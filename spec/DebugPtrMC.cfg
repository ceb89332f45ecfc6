SPECIFICATION Spec
CONSTANTS
 S = {1, 2, 3}
 W = {1, 2}
 G = {1, 2, 3}
INVARIANTS Exact Tracks DeadExact
CHECK_DEADLOCK FALSE
