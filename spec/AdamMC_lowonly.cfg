CONSTANTS
 Variant = "lowonly"
 Steps = 6
 Lr = 20
INIT Init
NEXT Next
INVARIANT Inv
