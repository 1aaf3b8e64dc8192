INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "graph"
  Depth = 17
  Vals = 4
