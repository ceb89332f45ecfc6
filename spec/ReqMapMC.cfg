SPECIFICATION Spec
CONSTANTS
 MaxDepth = 1
 Levels = 2
 QLevels = 1
 Keeps = {TRUE}
INVARIANTS SelectsByName Refused RoundTrip
CHECK_DEADLOCK FALSE
