----------------------------- MODULE RatioSampler -----------------------------
(***************************************************************************)
(* Ratio sampling (property T05) as a trace specification.  The choice of  *)
(* threshold is the implementation's: for every trace id there is some     *)
(* ratio th in (0, 1] such that the id is sampled exactly at the ratios    *)
(* that are at least th - by every sampler, thread and process.  Ratios    *)
(* are given by their rank in the recorder's increasing list, of which     *)
(* Zero and One are the ranks of 0 and 1.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Zero, One
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, at, lo, hi
vars == <<tid, at, lo, hi>>
Tr == Traces[tid]
\* lo[x]: the highest ratio at which x was not sampled; hi[x]: the lowest at which it was
Xs(q) == {q[i].t : i \in 1..Len(q)}
Init == /\ tid \in 1..Len(Traces) /\ at = 0
        /\ lo = [x \in Xs(Traces[tid]) |-> Zero] /\ hi = [x \in Xs(Traces[tid]) |-> One]
Query == /\ at < Len(Tr)
         /\ LET e == Tr[at + 1] IN
            IF e.d = "sample" THEN /\ hi' = [hi EXCEPT ![e.t] = IF e.r < @ THEN e.r ELSE @]
                        /\ UNCHANGED lo
                        /\ lo[e.t] < hi'[e.t]
            ELSE /\ e.d = "drop" /\ lo' = [lo EXCEPT ![e.t] = IF e.r > @ THEN e.r ELSE @]
                 /\ UNCHANGED hi
                 /\ lo'[e.t] < hi[e.t]
         /\ at' = at + 1 /\ UNCHANGED tid
         /\ PrintT("@@AT " \o ToString(tid) \o " " \o ToString(at + 1))
         /\ (at + 1 = Len(Tr) => PrintT("@@ACCEPT " \o ToString(tid)))
Next == Query
Spec == Init /\ [][Next]_vars
Consistent == \A x \in DOMAIN lo : lo[x] < hi[x]
=============================================================================
