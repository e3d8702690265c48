CONSTANTS Variant = "ok" MaxLen = 5 MaxD = 2
INIT Init
NEXT Next
INVARIANT Inv
