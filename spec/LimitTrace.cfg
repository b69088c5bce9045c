SPECIFICATION Spec
CONSTANTS Early = 60 Late = 500
INVARIANTS Acc
