CONSTANTS
 Variant = "fulldet"
 NL = 2
INIT Init
NEXT Next
INVARIANT Inv
