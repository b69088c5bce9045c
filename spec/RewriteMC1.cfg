SPECIFICATION Spec
CONSTANTS MaxT = 3 MaxP = 1 Show = TRUE
INVARIANTS Consistent StaysHere KeepsQuery Emit
