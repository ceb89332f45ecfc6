SPECIFICATION Spec
CONSTANTS WCap = 3
 RCap = 3
 MaxItems = 3
 MaxBulk = 5
INVARIANTS Conserved InOrder Bounded Complete
PROPERTY Finishes
