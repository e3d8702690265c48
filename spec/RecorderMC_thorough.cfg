INIT Init
NEXT Next
CONSTANTS NChains = 2
 Cols = 7
 MaxN = 4
 MaxThin = 3
 Variant = "ok"
INVARIANT Inv
