INIT Init
NEXT Next
CONSTANTS NChains = 2
 Cols = 4
 MaxN = 3
 MaxThin = 3
 Variant = "noadvance"
INVARIANT Inv
