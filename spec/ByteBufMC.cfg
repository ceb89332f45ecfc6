SPECIFICATION Spec
CONSTANTS MaxCap = 4
 Vals = {0, 1}
 Sizes = {1, 2}
 MaxPuts = 2
VIEW View
INVARIANT CursorsOk
PROPERTY PutThenGet
