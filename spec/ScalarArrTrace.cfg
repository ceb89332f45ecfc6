SPECIFICATION TSpec
POSTCONDITION TraceAccepted
