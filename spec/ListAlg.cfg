INIT Init
NEXT Next
VIEW View
CONSTANTS
  NT = 2
  MaxOps = 2
  Initial = 0
  Ord = {}
  Emit = FALSE
INVARIANTS Fine Refines Complete Log
CHECK_DEADLOCK FALSE
