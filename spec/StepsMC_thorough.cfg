CONSTANTS
 Variant = "ok"
 K = 4
 Len0 = 5
INIT Init
NEXT Next
INVARIANT Inv
