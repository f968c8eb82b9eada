INIT Init
NEXT Next
VIEW View
CONSTANTS
  Chunk = 2
  NT = 2
  NV = 3
  MaxOps = 3
  Scan = 30
  Unused = 30
  Ord = {}
  Emit = FALSE
INVARIANTS Fine Refines Balanced Distinct Bounded Log
CHECK_DEADLOCK FALSE
