SPECIFICATION Spec
CONSTANTS
  Thr = {1, 2, 3}
  MaxOps = 10
INVARIANT Inv
