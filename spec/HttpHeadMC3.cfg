SPECIFICATION Spec
CONSTANTS MaxH = 3 Show = FALSE
INVARIANTS TypeOk EndsThere Unambiguous OneHost NoControl
