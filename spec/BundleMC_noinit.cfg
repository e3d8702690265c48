CONSTANTS
 Variant = "noinit"
 MaxN = 3
 MaxThin = 2
 MaxLoops = 2
INIT Init
NEXT Next
INVARIANT Inv
