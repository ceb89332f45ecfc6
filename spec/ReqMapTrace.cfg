SPECIFICATION TSpec
POSTCONDITION TraceAccepted
CONSTANTS MaxDepth = 5
