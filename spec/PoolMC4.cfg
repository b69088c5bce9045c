SPECIFICATION Spec
CONSTANTS Reqs = {a, b, c, d}
 MaxPending = 2
 MaxListen = 3
INVARIANTS TypeOK Bound Excused
CHECK_DEADLOCK FALSE
