CONSTANTS Variant = "hidden" MaxLen = 4 MaxD = 1
INIT Init
NEXT Next
INVARIANT Inv
