SPECIFICATION Spec
CONSTANTS
  Cbs = {1, 2}
  Clients = {1, 2}
  Ops = 1
  MaxClock = 2
  Delays = {0, 1}
  Periods = {0, 1}
  Lazy = FALSE
INVARIANTS NeverEarly NoLostWakeup Sleeping Order AfterClose
PROPERTIES Implements CloseEnds
