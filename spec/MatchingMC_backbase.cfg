CONSTANTS
 Variant = "backbase"
 N = 2
INIT Init
NEXT Next
INVARIANT Inv
