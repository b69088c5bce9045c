SPECIFICATION Spec
CONSTANTS MaxT = 1 MaxP = 1 Show = FALSE
INVARIANTS NeverMoves
