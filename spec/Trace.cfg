SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
POSTCONDITION Consumed
CONSTANTS
  MB = 4
  SB = 30
  SSTEP = 10
  MaxChannels = 64
  MinRate = 16
  MaxRate = 2822400
  NBins = 1000
  MinWinM <- W400
  MinWinS <- W3000
  MinHistM <- W400
  MinHistS <- W3000
  NoHistLimit <- WMax
  Hop <- tHop
  MsFrames <- tMsFrames
  MsLt <- WLt
  CapHops <- tCapHops
  HistBlocks <- tHistBlocks
  HistStBlocks <- tHistStBlocks
  MayAlloc <- tMayAlloc
  NZero <- FZ
  NAdd <- FAdd
  NMulInt <- tMulInt
  NDivInt <- tDivInt
  NLt <- FLt
  NIsNaN <- FIsNaN
  NNear <- tNear
  NWeight <- tWeight
  AbsGate <- Gate70
  RelGate <- tRelGate
  RangeGate <- tRangeGate
  SortByEnergy <- FSortPairs
  BinOf <- tBinOf
  BinCentre <- tBinCentre
  Unsure <- tUnsure
  SigEnergy <- tEnergy
  SigPeak <- tPeak
  Oversampled <- tOversampled
  SigTruePeak <- tTruePeak
