CONSTANTS
 Variant = "unless"
 K = 3
 Len0 = 3
INIT Init
NEXT Next
INVARIANT Inv
