CONSTANTS
 Depth = 16
INIT Init
NEXT Next
