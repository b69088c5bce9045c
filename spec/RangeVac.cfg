SPECIFICATION Spec
CONSTANTS MaxT = 5 Sizes = {8} Show = FALSE
INVARIANTS Vac
