SPECIFICATION Spec
CONSTANT M = 100
INVARIANTS Arith Repr Samples Stamps
