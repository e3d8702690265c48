CONSTANTS
 Variant = "both"
 Strategies = 2
 Chains = 2
 NSteps = 3
INIT Init
NEXT Next
INVARIANT Inv
