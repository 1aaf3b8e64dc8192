INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "uf"
  Depth = 3
  Vals = 4
