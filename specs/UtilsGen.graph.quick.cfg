INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "graph"
  Depth = 10
  Vals = 3
