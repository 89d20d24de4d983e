CONSTANTS
  MaxLevel = 4
  Emitting = FALSE
  Thin = 1
  StartPre = FALSE
  Cfg <- CfgVal
  Prefix <- PrefixVal
  Tags = {1, 2}
  Comms = {1, 2}
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
INVARIANTS C01 C04_Inv C10_Inv
PROPERTIES C03 C04 C06 C07 C08 C10 C18 C22 C24
