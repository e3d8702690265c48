INIT Init
NEXT Next
CONSTANTS MaxLen = 3
 Variant = "stale"
INVARIANT Inv
