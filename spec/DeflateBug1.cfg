SPECIFICATION Spec
CONSTANTS
  MaxIn = 6
  OutBuf = 2
  Flush = "once"
  OnCut = "reset"
INVARIANTS
  TypeOK
  Conserved
  Honest
  PromptI
  Faithful
PROPERTIES
  Prompt
  Ends
