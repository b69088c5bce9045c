SPECIFICATION Spec
CONSTANTS MaxT = 4 Show = TRUE
INVARIANTS Normalised Idempotent Containment NoSecret Emit
