CONSTANTS
  MaxLevel = 2
  Emitting = FALSE
  Thin = 1
  StartPre = FALSE
  Cfg <- CfgVal
  Prefix <- PrefixVal
  Rich = 0
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitTypes
INVARIANTS C10_Inv C11_Inv C12_Inv
PROPERTIES C10 C13 C22 C24
