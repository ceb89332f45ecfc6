SPECIFICATION Spec
CONSTANTS
 Steps = 5
 NIds = 3
INVARIANTS Built LastWins Cloned
PROPERTIES Frame
CHECK_DEADLOCK FALSE
