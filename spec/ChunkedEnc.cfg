SPECIFICATION Spec
CONSTANTS MaxLen=0
Mode="enc"
INVARIANTS EncDec
