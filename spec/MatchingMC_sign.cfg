CONSTANTS
 Variant = "sign"
 N = 2
INIT Init
NEXT Next
INVARIANT Inv
