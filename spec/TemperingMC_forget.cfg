CONSTANTS
 Variant = "forget"
 R = 3
 Calls = 3
INIT Init
NEXT Next
INVARIANT Inv
