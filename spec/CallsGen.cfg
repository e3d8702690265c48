CONSTANT Depth = 6
INIT Init
NEXT Next
