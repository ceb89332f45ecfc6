SPECIFICATION Spec
CONSTANTS
 Vals = {0, 1}
 MaxN = 3
 MaxCap = 4
VIEW Seen
INVARIANTS Discipline
PROPERTIES Refused Immutable CapFrozen CapKeeps Prefix
CHECK_DEADLOCK FALSE
