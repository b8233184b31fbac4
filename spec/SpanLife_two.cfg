CONSTANTS LAttr = 1  LEv = 1  LLink = 1  LEvAttr = 1  LLinkAttr = 1
CONSTANTS MaxSpans = 2  MaxOps = 3  NAttr = 2  OnStart = TRUE  SimLen = 0
CONSTANT Pick <- PickAll
INIT Init
NEXT NextBfs
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE
