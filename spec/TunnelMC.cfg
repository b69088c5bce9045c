SPECIFICATION Spec
CONSTANT M = 5
INVARIANTS NoLoss NoLossC NoInvention
CHECK_DEADLOCK FALSE
