SPECIFICATION TSpec
POSTCONDITION TDone
