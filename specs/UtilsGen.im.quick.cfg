INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "im"
  Depth = 3
  Vals = 2
