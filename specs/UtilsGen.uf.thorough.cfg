INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "uf"
  Depth = 4
  Vals = 4
