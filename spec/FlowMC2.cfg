SPECIFICATION Spec
CONSTANTS P = 14 H = 4 L = 2 R = 2 S = 2 KB = 3 KC = 1 Bug = "none"
INVARIANTS Conserve Bounded Working
PROPERTIES Delivered
CHECK_DEADLOCK FALSE
