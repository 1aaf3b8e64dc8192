INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "pool"
  Depth = 5
  Vals = 3
