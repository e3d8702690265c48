CONSTANTS
 Variant = "ok"
 NL = 4
INIT Init
NEXT Next
INVARIANT Inv
