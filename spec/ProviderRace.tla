---------------------------- MODULE ProviderRace -----------------------------
(* Threads that shut a provider down at the same moment: one of them does it, *)
(* the others are told that it has been done; each of the two processors is  *)
(* shut down once, in order.                                                 *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, at, did, told
Tr == Traces[tid]
Ev == Tr[at + 1]
Init == tid \in 1..Len(Traces) /\ at = 0 /\ did = 0 /\ told = <<>>
Step(e) == /\ at < Len(Tr) /\ Ev.e = e /\ at' = at + 1 /\ UNCHANGED tid
Ret == Step("ret") /\ Ev.res \in {"ok", "already", "dropped"} /\ did' = did + (IF Ev.res = "ok" THEN 1 ELSE 0) /\ UNCHANGED told
Tell == Step("told") /\ told' = Append(told, Ev.what) /\ UNCHANGED did
End == Step("end") /\ did = 1 /\ told = <<"s1", "s2">> /\ UNCHANGED <<did, told>>
\* says how far the run could be followed (after all other conditions: TLC evaluates in order)
Report == at' # at => /\ PrintT("@@AT " \o ToString(tid) \o " " \o ToString(at + 1))
                      /\ (at + 1 = Len(Tr) => PrintT("@@ACCEPT " \o ToString(tid)))
Next == (Ret \/ Tell \/ End) /\ Report
=============================================================================
