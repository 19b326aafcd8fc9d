SPECIFICATION TSpec
CONSTANTS
  Aux0 <- A0
  Judge <- JJ
  AuxStep <- AA
  Final <- FF
CHECK_DEADLOCK FALSE
