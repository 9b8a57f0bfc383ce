SPECIFICATION Spec
CONSTANTS
  SectorSizes <- SecTwo
  SpcBytes <- SpcOkB
  FrsBytes <- FrsThree
  Sectors <- OneT
  Lcns <- OneL
  Signatures <- Sigs
INVARIANTS Contract Emit
CHECK_DEADLOCK FALSE
