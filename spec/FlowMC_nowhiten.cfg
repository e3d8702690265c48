CONSTANTS
 Variant = "nowhiten"
 NL = 2
INIT Init
NEXT Next
INVARIANT Inv
