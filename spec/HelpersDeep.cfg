SPECIFICATION Spec
CONSTANT Depth = 6
INVARIANTS Laws Attached
