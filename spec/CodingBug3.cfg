SPECIFICATION Spec
CONSTANTS
  Names = {"gzip", "deflate", "*"}
  Choice = "zero"
  Tagging = "coded"
  VaryOn = FALSE
INVARIANTS
  RightChoice
  OneTagOneBody
  CacheRight
