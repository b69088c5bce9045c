SPECIFICATION Spec
CONSTANTS Reqs = {a, b, c}
 MaxPending = 2
 MaxListen = 3
INVARIANTS Vac
CHECK_DEADLOCK FALSE
