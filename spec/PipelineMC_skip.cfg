INIT Init
NEXT Next
CONSTANTS MaxLen = 3
 Variant = "skip"
INVARIANT Inv
