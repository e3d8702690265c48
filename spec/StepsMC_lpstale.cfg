CONSTANTS
 Variant = "lpstale"
 K = 3
 Len0 = 3
INIT Init
NEXT Next
INVARIANT Inv
