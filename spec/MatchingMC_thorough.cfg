CONSTANTS
 Variant = "ok"
 N = 4
INIT Init
NEXT Next
INVARIANT Inv
