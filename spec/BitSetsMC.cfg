SPECIFICATION Spec
CONSTANTS W = 2
 NBits = 5
 Names = {1, 2}
VIEW View
INVARIANTS Canonical EqualIsSame ObserversAgree
PROPERTY Refines
