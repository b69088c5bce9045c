CONSTANTS MaxH = 2
 MaxT = 2
 MaxP = 1
 Show = FALSE
SPECIFICATION Spec
INVARIANTS VacUser
CHECK_DEADLOCK FALSE
