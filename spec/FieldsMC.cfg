SPECIFICATION Spec
CONSTANTS
 MaxB = 2
 MaxF = 2
 Names = {"a", "bad"}
CONSTRAINT Small
INVARIANTS Built
PROPERTIES Refused
CHECK_DEADLOCK FALSE
