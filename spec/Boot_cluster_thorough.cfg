SPECIFICATION Spec
CONSTANTS
  SectorSizes <- SecAll
  SpcBytes <- Bytes256
  FrsBytes <- FrsThree
  Sectors <- OneT
  Lcns <- OneL
  Signatures <- Sigs
INVARIANTS Contract Emit
CHECK_DEADLOCK FALSE
