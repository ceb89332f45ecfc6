SPECIFICATION Spec
CONSTANTS
 M = 20
 K = {24, 31, 32, 53, 62, 63, 64}
INVARIANTS Text Conv
CHECK_DEADLOCK FALSE
