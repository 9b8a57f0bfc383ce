SPECIFICATION Spec
CONSTANTS
  SectorSizes <- SecAll
  SpcBytes <- SpcOkB
  FrsBytes <- Bytes256
  Sectors <- OneT
  Lcns <- OneL
  Signatures <- Sig1
INVARIANTS Contract Emit
CHECK_DEADLOCK FALSE
