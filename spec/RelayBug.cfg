SPECIFICATION Spec
CONSTANT Bug=TRUE
INVARIANTS NeverInvented Delimited NoChunk10 Bodyless Bounded
