SPECIFICATION Spec
CONSTANTS Reqs = {a, b, c}
 MaxPending = 2
 MaxListen = 3
INVARIANTS VacReuse
CHECK_DEADLOCK FALSE
