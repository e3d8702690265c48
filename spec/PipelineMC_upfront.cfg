INIT Init
NEXT Next
CONSTANTS MaxLen = 3
 Variant = "upfront"
INVARIANT Inv
