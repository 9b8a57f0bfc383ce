SPECIFICATION Spec
CONSTANTS
  SectorSizes <- SecOk
  SpcBytes <- SpcOkB
  FrsBytes <- Bytes256
  Sectors <- OneT
  Lcns <- OneL
  Signatures <- Sig1
INVARIANTS Contract Emit
CHECK_DEADLOCK FALSE
