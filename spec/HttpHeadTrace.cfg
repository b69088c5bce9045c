SPECIFICATION Spec
INVARIANTS Acc TypeOk Diag
