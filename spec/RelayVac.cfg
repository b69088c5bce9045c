SPECIFICATION Spec
CONSTANT Bug=FALSE
INVARIANTS Vac
