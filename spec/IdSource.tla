------------------------------ MODULE IdSource ------------------------------
(***************************************************************************)
(* Freshness of generated ids (property T04) as a trace specification: the *)
(* ids of root spans started by many threads of several processes, in any  *)
(* order.  A source may hand out any valid id it has not handed out before.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, at, ids, trs
vars == <<tid, at, ids, trs>>
Tr == Traces[tid]
ZeroSpan == "0000000000000000"
ZeroTrace == "00000000000000000000000000000000"
Init == tid \in 1..Len(Traces) /\ at = 0 /\ ids = {ZeroSpan} /\ trs = {ZeroTrace}
Issue == /\ at < Len(Tr)
         /\ LET e == Tr[at + 1] IN
            /\ e.s \notin ids /\ e.t \notin trs
            /\ ids' = ids \cup {e.s} /\ trs' = trs \cup {e.t}
         /\ at' = at + 1 /\ UNCHANGED tid
         /\ (at + 1) % 50 = 0 => PrintT("@@AT " \o ToString(tid) \o " " \o ToString(at + 1))
         /\ (at + 1 = Len(Tr) => PrintT("@@ACCEPT " \o ToString(tid)))
Spec == Init /\ [][Issue]_vars
Fresh == Cardinality(ids) = at + 1 /\ Cardinality(trs) = at + 1
=============================================================================
