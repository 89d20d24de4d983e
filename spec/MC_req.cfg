CONSTANTS
  MaxLevel = 4
  Emitting = FALSE
  Thin = 1
  StartPre = FALSE
  Cfg <- CfgVal
  Prefix <- PrefixVal
  MaxReqs = 3
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
INVARIANTS C04_Inv C10_Inv
PROPERTIES C03 C04 C05 C06 C08 C09 C10 C22 C24
