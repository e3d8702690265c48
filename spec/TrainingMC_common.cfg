CONSTANTS
 Variant = "common"
 N = 3
 B = 2
 Epochs = 3
 Cols = 4
 Hist = 2
INIT Init
NEXT Next
INVARIANT Inv
