SPECIFICATION Spec
CONSTANTS
 S = {1, 2, 3, 4}
 W = {1, 2}
 G = {1, 2, 3, 4}
INVARIANTS Exact Tracks DeadExact
CHECK_DEADLOCK FALSE
