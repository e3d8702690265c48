CONSTANTS
 Variant = "unwhitened"
 N = 2
INIT Init
NEXT Next
INVARIANT Inv
