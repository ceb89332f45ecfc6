SPECIFICATION Spec
INVARIANTS WellFormed Grows Limits
CHECK_DEADLOCK FALSE
