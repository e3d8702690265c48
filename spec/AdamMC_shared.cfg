CONSTANTS
 Variant = "shared"
 Steps = 4
 Lr = 20
INIT Init
NEXT Next
INVARIANT Inv
