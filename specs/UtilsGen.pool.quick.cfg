INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "pool"
  Depth = 4
  Vals = 3
