-------------------------------- MODULE Cover --------------------------------
(* Emission of behaviours for the conformance harness, and the two ways the *)
(* generators range over a set: all of it (exhaustive search), or one random *)
(* element of it (random walks).                                            *)
EXTENDS TLC, Json, Sequences
Emit(h) == PrintT("@@" \o ToJson(h))
PickAll(S) == S
PickOne(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
=============================================================================
