SPECIFICATION Spec
CONSTANTS
  Thr = {1, 2}
  MaxOps = 7
INVARIANT Inv
