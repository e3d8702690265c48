CONSTANTS
 Variant = "ok"
 R = 3
 Calls = 5
INIT Init
NEXT Next
INVARIANT Inv
