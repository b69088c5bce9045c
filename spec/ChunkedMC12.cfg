SPECIFICATION Spec
CONSTANTS MaxLen=12
Mode="dec"
INVARIANTS EndIffBody Decoded NoMore
