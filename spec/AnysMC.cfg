SPECIFICATION Spec
CONSTANTS
 H = {1, 2, 3}
 Types = {"string", "int", "double"}
 Vals = {1, 2}
VIEW Seen
INVARIANTS TypeOK
PROPERTIES Others Conserve Moved KeepType
CHECK_DEADLOCK FALSE
