CONSTANTS
 Variant = "stale"
 K = 2
 N = 5
 B = 2
INIT Init
NEXT Next
INVARIANT Inv
