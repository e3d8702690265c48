CONSTANTS
 Variant = "nodiv"
 N = 2
INIT Init
NEXT Next
INVARIANT Inv
