SPECIFICATION Spec
CONSTANTS P = 14 H = 1 L = 3 R = 2 S = 3 KB = 2 KC = 2 Bug = "none"
INVARIANTS Conserve Bounded Working
PROPERTIES Delivered
CHECK_DEADLOCK FALSE
