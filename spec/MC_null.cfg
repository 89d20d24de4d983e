CONSTANTS
  MaxLevel = 3
  Emitting = FALSE
  Thin = 1
  StartPre = FALSE
  Cfg <- CfgVal
  Prefix <- PrefixVal
  Part = "null"
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
INVARIANTS C04_Inv C10_Inv
PROPERTIES C03 C04 C06 C08 C09 C13 C22 C24
