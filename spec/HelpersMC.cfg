SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS Laws Attached
