CONSTANTS
 Variant = "cursor"
 Depth = 4
 Shape <- Shape23
INIT Init
NEXT Next
INVARIANT Inv
