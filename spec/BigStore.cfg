INIT Init
NEXT Next
VIEW View
CONSTANTS
  Chunk = 32
  K = 3
  Top = 2
  MaxOps = 12
  Emit = FALSE
INVARIANTS Fine Balanced Values
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT LogEdge
