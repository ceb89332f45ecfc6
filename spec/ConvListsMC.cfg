SPECIFICATION Spec
CONSTANTS
 Chars = {44, 91, 93, 49}
 N = 4
 K = 2
INVARIANTS SplitOk Back Trans
CHECK_DEADLOCK FALSE
