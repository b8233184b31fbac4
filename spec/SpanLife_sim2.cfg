CONSTANTS LAttr = 128  LEv = 128  LLink = 128  LEvAttr = 128  LLinkAttr = 128
CONSTANTS MaxSpans = 4  MaxOps = 1000  NAttr = 130  OnStart = FALSE  SimLen = 40
CONSTANT Pick <- PickOne
INIT Init
NEXT NextSim

INVARIANT Accounting
ACTION_CONSTRAINT EmitSim
CHECK_DEADLOCK FALSE
