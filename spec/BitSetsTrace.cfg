SPECIFICATION TSpec
CONSTANTS W = 2
 NBits = 4
 Names = {1, 2}
POSTCONDITION TraceAccepted
