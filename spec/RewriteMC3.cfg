SPECIFICATION Spec
CONSTANTS MaxT = 3 MaxP = 2 Show = FALSE
INVARIANTS Consistent StaysHere KeepsQuery Emit
