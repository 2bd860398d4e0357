SPECIFICATION Spec
CONSTANTS
  N = 3
  Slots = {0, 1, 2, 3, 4}
  Cnts = {1, 2}
  Rates = {0}
  Pubs = {1}
  Sids = {0}
  Halves = {0}
  Types = {"i"}
  Opts <- OptsBasic
INVARIANTS Conserved Ordered Bounded OneEach SegData Versions OrderFree Emit
PROPERTY JoinRule
CHECK_DEADLOCK FALSE
