SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS VacFold
CHECK_DEADLOCK FALSE
