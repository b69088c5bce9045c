SPECIFICATION Spec
CONSTANTS TTL = 2 MaxT = 6 Texts = {"both","one","chg","bad"} Bug = FALSE
PROPERTIES Fresh Revoked
CHECK_DEADLOCK FALSE
