SPECIFICATION Spec
CONSTANTS
  SectorSizes <- SecOk
  SpcBytes <- SpcOkB
  FrsBytes <- FrsFew
  Sectors <- Totals
  Lcns <- LcnsAll
  Signatures <- Sig1
INVARIANTS Contract Emit
CHECK_DEADLOCK FALSE
