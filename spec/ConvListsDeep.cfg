SPECIFICATION Spec
CONSTANTS
 Chars = {44, 91, 93, 49}
 N = 5
 K = 3
INVARIANTS SplitOk Back Trans
CHECK_DEADLOCK FALSE
