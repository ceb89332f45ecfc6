SPECIFICATION Spec
CONSTANTS
 Depth = 3
 MaxNodes = 9
INVARIANTS Laws WellFormed
PROPERTY Sticks
