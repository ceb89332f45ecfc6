SPECIFICATION Spec
CONSTANTS
 Thr = {1, 2}
 Leaf = {"x"}
 Ids = {1, 2, 3, 4}
INVARIANTS OneEach Held Table LiveListed
CHECK_DEADLOCK FALSE
