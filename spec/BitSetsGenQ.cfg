SPECIFICATION Spec
CONSTANTS W = 2
 NBits = 3
 Names = {1, 2}
VIEW View
INVARIANTS Canonical EqualIsSame ObserversAgree
PROPERTY Refines
ACTION_CONSTRAINT Emit
