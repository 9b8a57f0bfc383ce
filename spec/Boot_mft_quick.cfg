SPECIFICATION Spec
CONSTANTS
  SectorSizes <- SecTwo
  SpcBytes <- SpcOkB
  FrsBytes <- FrsFew
  Sectors <- OneT
  Lcns <- LcnsAll
  Signatures <- Sig1
INVARIANTS Contract Emit
CHECK_DEADLOCK FALSE
