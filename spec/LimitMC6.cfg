SPECIFICATION Spec
CONSTANTS R = {1, 2, 3} MaxT = 2500 ProgNo = 6 Leak = FALSE Early = 0 Late = 0
INVARIANTS Conserved Bounded RefusedOnlyFull Rate
CONSTRAINT Small
CHECK_DEADLOCK FALSE
