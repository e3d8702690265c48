CONSTANTS
 Variant = "swap"
 N = 2
INIT Init
NEXT Next
INVARIANT Inv
