SPECIFICATION Spec
CONSTANTS
  Names = {"gzip", "deflate", "*"}
  Choice = "zero"
  Tagging = "coded"
  VaryOn = TRUE
INVARIANTS
  RightChoice
  OneTagOneBody
  CacheRight
