SPECIFICATION Spec
CONSTANTS R = {1, 2, 3} MaxT = 1000 ProgNo = 7 Leak = FALSE Early = 0 Late = 0
INVARIANTS Conserved Bounded RefusedOnlyFull Rate
CONSTRAINT Small
CHECK_DEADLOCK FALSE
