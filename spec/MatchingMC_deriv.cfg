CONSTANTS
 Variant = "deriv"
 N = 2
INIT Init
NEXT Next
INVARIANT Inv
