SPECIFICATION Spec
INVARIANTS Acc
