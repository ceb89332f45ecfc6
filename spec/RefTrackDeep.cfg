SPECIFICATION Spec
CONSTANTS
 Names = {1, 2}
 Counters = {1, 2}
 MaxV = 2
 Slots = {1, 2, 3}
INVARIANTS Faithful Algebra Current
PROPERTY Guarded
CHECK_DEADLOCK FALSE
