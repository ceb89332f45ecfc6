SPECIFICATION Spec
CONSTANTS
 MaxDepth = 2
 Levels = 2
 QLevels = 2
 Keeps = {TRUE, FALSE}
INVARIANTS SelectsByName Refused RoundTrip
CHECK_DEADLOCK FALSE
