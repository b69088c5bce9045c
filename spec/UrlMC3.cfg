SPECIFICATION Spec
CONSTANTS MaxT = 3 Show = TRUE
INVARIANTS Normalised Idempotent Containment NoSecret Emit
