SPECIFICATION Spec
CONSTANT M = 6
INVARIANTS Arith Repr Samples Stamps
