CONSTANTS
 Variant = "ok"
 Steps = 14
 Lr = 20
INIT Init
NEXT Next
INVARIANT Inv
