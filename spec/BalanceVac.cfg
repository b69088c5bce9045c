CONSTANTS N = 2
 Reqs = {1, 2, 3}
 Method = "rr"
 Toggles = 2
 NoTimer = FALSE
 LeakLoad = FALSE
 Again = FALSE
SPECIFICATION Spec
INVARIANTS VacWait
CHECK_DEADLOCK FALSE
