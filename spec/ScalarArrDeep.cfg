SPECIFICATION Spec
CONSTANTS
 Vals = {0, 1, 2}
 MaxN = 4
 MaxCap = 5
VIEW Seen
INVARIANTS Discipline
PROPERTIES Refused Immutable CapFrozen CapKeeps Prefix
CHECK_DEADLOCK FALSE
