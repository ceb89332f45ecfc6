SPECIFICATION Spec
CONSTANTS
 Thr = {1, 2, 3}
 Leaf = {"x", "y"}
 Ids = {1, 2, 3, 4, 5}
INVARIANTS OneEach Held Table LiveListed
CHECK_DEADLOCK FALSE
