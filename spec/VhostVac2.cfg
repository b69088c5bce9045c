CONSTANTS MaxH = 2
 MaxT = 2
 MaxP = 1
 Show = FALSE
SPECIFICATION Spec
INVARIANTS VacAlias
CHECK_DEADLOCK FALSE
