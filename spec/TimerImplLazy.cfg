SPECIFICATION Spec
CONSTANTS
  Cbs = {1, 2}
  Clients = {1}
  Ops = 2
  MaxClock = 2
  Delays = {0, 1}
  Periods = {0, 1}
  Lazy = TRUE
INVARIANTS NeverEarly Sleeping Order AfterClose
PROPERTIES Implements
