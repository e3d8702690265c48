CONSTANT Len0 = 7
INIT Init
NEXT Next
