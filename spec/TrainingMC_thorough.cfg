CONSTANTS
 Variant = "ok"
 N = 5
 B = 2
 Epochs = 5
 Cols = 7
 Hist = 2
INIT Init
NEXT Next
INVARIANT Inv
