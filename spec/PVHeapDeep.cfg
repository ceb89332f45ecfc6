SPECIFICATION Spec
CONSTANTS
 Depth = 4
 MaxNodes = 12
INVARIANTS Laws WellFormed
PROPERTY Sticks
