SPECIFICATION Spec
CONSTANTS MaxT = 3 Show = FALSE
INVARIANTS NeverServes
