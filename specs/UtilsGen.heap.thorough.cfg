INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "heap"
  Depth = 8
  Vals = 3
