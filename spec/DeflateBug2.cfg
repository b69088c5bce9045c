SPECIFICATION Spec
CONSTANTS
  MaxIn = 6
  OutBuf = 2
  Flush = "loop"
  OnCut = "close"
INVARIANTS
  TypeOK
  Conserved
  Honest
  PromptI
  Faithful
PROPERTIES
  Prompt
  Ends
