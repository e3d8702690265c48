CONSTANTS
 Variant = "ok"
 N = 3
INIT Init
NEXT Next
INVARIANT Inv
