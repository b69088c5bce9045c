CONSTANTS N = 3
 Reqs = {1, 2, 3}
 Method = "rr"
 Toggles = 2
 NoTimer = FALSE
 LeakLoad = FALSE
 Again = FALSE
SPECIFICATION Spec
INVARIANTS Load OnceOnly Waits Timed
CHECK_DEADLOCK FALSE
