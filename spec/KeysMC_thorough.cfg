CONSTANTS
 Variant = "ok"
 Strategies = 2
 Chains = 3
 NSteps = 2
INIT Init
NEXT Next
INVARIANT Inv
