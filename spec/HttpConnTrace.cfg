SPECIFICATION TSpec
CONSTANTS DrainBug = FALSE
INVARIANTS Acc TInv
