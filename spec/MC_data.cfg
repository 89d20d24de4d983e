CONSTANTS
  MaxLevel = 2
  Emitting = FALSE
  Thin = 1
  StartPre = FALSE
  Cfg <- CfgVal
  Prefix <- PrefixVal
  Part = "p2p"
  Ns = {1, 2}
  Nr = {0, 1, 3}
  MaxQ = 1
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitData
INVARIANTS C04_Inv C11_Inv C12_Inv
PROPERTIES C02 C03 C13 C14 C15 C16 C22 C24
