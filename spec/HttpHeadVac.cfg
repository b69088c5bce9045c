SPECIFICATION Spec
CONSTANTS MaxH = 2 Show = FALSE
INVARIANTS NeverAccepts
