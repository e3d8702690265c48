CONSTANTS
 Variant = "dim0"
 Depth = 4
 Shape <- Shape22
INIT Init
NEXT Next
INVARIANT Inv
