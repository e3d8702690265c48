CONSTANTS
  Variant = "lasthalf"
  N = 2
  W = 3
  Mod = 5
INIT Init
NEXT Next
INVARIANT Inv
