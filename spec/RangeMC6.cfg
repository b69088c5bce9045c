SPECIFICATION Spec
CONSTANTS MaxT = 6 Sizes = {0, 1, 5, 8} Show = TRUE
INVARIANTS RangesInside Complete Covers Emit
