SPECIFICATION Spec
PROPERTY Ends
CONSTANTS MaxLen = 4
 Variant = "ok"
INVARIANT Inv
