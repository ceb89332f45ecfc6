SPECIFICATION Spec
CONSTANTS
 H = {1, 2, 3}
 Vals = {0, 1}
 MaxN = 2
 MaxM = 2
CONSTRAINT Few
VIEW Seen
INVARIANTS Windows Separated
PROPERTIES Isolated Frozen
CHECK_DEADLOCK FALSE
