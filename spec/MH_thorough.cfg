CONSTANTS
  Variant = "ok"
  N = 3
  W = 2
  Mod = 5
INIT Init
NEXT Next
INVARIANT Inv
