CONSTANTS
 Variant = "ok"
 K = 3
 N = 6
 B = 4
INIT Init
NEXT Next
INVARIANT Inv
