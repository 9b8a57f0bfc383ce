SPECIFICATION Spec
CONSTANTS
  SectorSizes <- SecAll
  SpcBytes <- Bytes256
  FrsBytes <- FrsFew
  Sectors <- OneT
  Lcns <- OneL
  Signatures <- Sig1
INVARIANTS Contract Emit
CHECK_DEADLOCK FALSE
