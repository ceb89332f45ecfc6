SPECIFICATION Spec
CONSTANTS
 Steps = 4
 NIds = 2
INVARIANTS Built LastWins Cloned
PROPERTIES Frame
CHECK_DEADLOCK FALSE
