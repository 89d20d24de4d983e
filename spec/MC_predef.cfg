CONSTANTS
  MaxLevel = 1
  Emitting = FALSE
  Thin = 1
  StartPre = FALSE
  Cfg <- CfgVal
  Prefix <- PrefixVal
  Fr = 4
  Fd = 8
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitUse
INVARIANTS C21_Inv C11_Inv C12_Inv
PROPERTIES C14 C15 C21 C22 C24
