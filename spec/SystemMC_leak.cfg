CONSTANTS Variant = "leak" MaxLen = 4 MaxD = 1
INIT Init
NEXT Next
INVARIANT Inv
