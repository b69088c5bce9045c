SPECIFICATION Spec
CONSTANTS MaxT = 2 MaxP = 2 Show = TRUE
INVARIANTS Consistent StaysHere KeepsQuery Emit
