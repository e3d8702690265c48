CONSTANTS
 Variant = "ok"
 MaxN = 5
 MaxThin = 4
 MaxLoops = 4
INIT Init
NEXT Next
INVARIANT Inv
