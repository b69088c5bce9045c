SPECIFICATION Spec
CONSTANTS
  Names = {"gzip", "deflate", "*"}
  Choice = "zero"
  Tagging = "same"
  VaryOn = TRUE
INVARIANTS
  RightChoice
  OneTagOneBody
  CacheRight
