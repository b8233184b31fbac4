CONSTANTS LAttr = 4  LEv = 3  LLink = 3  LEvAttr = 2  LLinkAttr = 2
CONSTANTS MaxSpans = 4  MaxOps = 1000  NAttr = 3  OnStart = TRUE  SimLen = 40
CONSTANT Pick <- PickOne
INIT Init
NEXT NextSim

INVARIANT Accounting
ACTION_CONSTRAINT EmitSim
CHECK_DEADLOCK FALSE
