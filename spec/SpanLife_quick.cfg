CONSTANTS LAttr = 2  LEv = 1  LLink = 1  LEvAttr = 1  LLinkAttr = 1
CONSTANTS MaxSpans = 1  MaxOps = 4  NAttr = 2  OnStart = FALSE  SimLen = 0
CONSTANT Pick <- PickAll
INIT Init
NEXT NextBfs
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE
