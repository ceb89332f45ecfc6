SPECIFICATION Spec
CONSTANTS
 MaxB = 3
 MaxF = 2
 Names = {"a", "b", "bad"}
CONSTRAINT Small
INVARIANTS Built
PROPERTIES Refused
CHECK_DEADLOCK FALSE
