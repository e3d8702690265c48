CONSTANTS
 Variant = "fwdtime"
 N = 2
INIT Init
NEXT Next
INVARIANT Inv
