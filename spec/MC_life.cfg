CONSTANTS
  MaxLevel = 5
  Emitting = FALSE
  Thin = 1
  StartPre = TRUE
  Cfg <- CfgVal
  Prefix <- PrefixVal
  MaxLive = 4
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
INVARIANTS C04_Inv C10_Inv C11_Inv C12_Inv C25_Inv
PROPERTIES C04 C07 C10 C13 C18 C20 C22 C24
