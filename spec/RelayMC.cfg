SPECIFICATION Spec
CONSTANT Bug=FALSE
INVARIANTS NeverInvented Delimited NoChunk10 Bodyless Bounded
PROPERTY Answered
