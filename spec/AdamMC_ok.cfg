CONSTANTS
 Variant = "ok"
 Steps = 6
 Lr = 20
INIT Init
NEXT Next
INVARIANT Inv
