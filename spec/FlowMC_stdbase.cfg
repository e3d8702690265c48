CONSTANTS
 Variant = "stdbase"
 NL = 2
INIT Init
NEXT Next
INVARIANT Inv
