SPECIFICATION Spec
CONSTANTS
 M = 1100
 K = {24, 25, 30, 31, 32, 33, 52, 53, 54, 62, 63, 64}
INVARIANTS Text Conv
CHECK_DEADLOCK FALSE
