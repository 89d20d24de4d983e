CONSTANTS
  MaxLevel = 4
  Emitting = FALSE
  Thin = 1
  StartPre = FALSE
  Cfg <- CfgVal
  Prefix <- PrefixVal
  Part = "comms"
  MaxComms = 3
SPECIFICATION Spec
VIEW KindView
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
INVARIANTS C01 C04_Inv C10_Inv
PROPERTIES C04 C06 C07 C10 C17 C18 C22 C23 C24
