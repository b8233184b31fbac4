CONSTANTS LAttr = 2  LEv = 2  LLink = 2  LEvAttr = 1  LLinkAttr = 1
CONSTANTS MaxSpans = 1  MaxOps = 5  NAttr = 2  OnStart = TRUE  SimLen = 0
CONSTANT Pick <- PickAll
INIT Init
NEXT NextBfs
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE
