CONSTANTS
 Variant = "stale"
 R = 3
 Calls = 3
INIT Init
NEXT Next
INVARIANT Inv
