INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "heap"
  Depth = 6
  Vals = 3
