CONSTANTS
 Variant = "ok"
 Depth = 6
 Shape <- Shape23
INIT Init
NEXT Next
INVARIANT Inv
