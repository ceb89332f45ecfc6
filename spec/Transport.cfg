SPECIFICATION Spec
CONSTANTS WCap = 3
 RCap = 2
 MaxItems = 2
 MaxBulk = 4
INVARIANTS Conserved InOrder Bounded Complete
PROPERTY Finishes
