SPECIFICATION Spec
CONSTANTS
 Alphabet = {97, 98, 44, 46, 91, 93, 61, 123, 125}
 N = 4
INVARIANTS RoundTrip Laws
CHECK_DEADLOCK FALSE
