SPECIFICATION Spec
CONSTANTS R = {1, 2, 3} MaxT = 0 ProgNo = 3 Leak = FALSE Early = 0 Late = 0
INVARIANTS Vac
CONSTRAINT Small
CHECK_DEADLOCK FALSE
