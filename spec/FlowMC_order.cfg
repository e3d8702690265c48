CONSTANTS
 Variant = "order"
 NL = 2
INIT Init
NEXT Next
INVARIANT Inv
