CONSTANTS
 Variant = "ok"
 NL = 3
INIT Init
NEXT Next
INVARIANT Inv
