CONSTANTS LAttr = 0  LEv = 0  LLink = 0  LEvAttr = 0  LLinkAttr = 0
CONSTANTS MaxSpans = 1  MaxOps = 4  NAttr = 2  OnStart = FALSE  SimLen = 0
CONSTANT Pick <- PickAll
INIT Init
NEXT NextBfs
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE
