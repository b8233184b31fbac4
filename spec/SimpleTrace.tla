---------------------------- MODULE SimpleTrace ------------------------------
(* What a simple (non-batching) processor may do: the item is handed to the  *)
(* exporter, alone, within the call that hands it to the processor; exports  *)
(* never overlap; after a shutdown has returned nothing is exported.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, at, pend, run, done, sd, dead, xs
vars == <<tid, at, pend, run, done, sd, dead, xs>>
Tr == Traces[tid]
Ev == Tr[at + 1]
Init == tid \in 1..Len(Traces) /\ at = 1 /\ pend = <<>> /\ run = {} /\ done = {} /\ sd = FALSE /\ dead = FALSE /\ xs = 0
Step(e) == /\ at < Len(Tr) /\ Ev.e = e /\ at' = at + 1 /\ UNCHANGED tid
Emit == Step("emit") /\ pend' = (Ev.id :> Ev.s) @@ pend /\ UNCHANGED <<run, done, sd, dead, xs>>
Export ==   \* one item, handed over by a call still in progress, for the first time
  /\ Step("export") /\ run = {} /\ ~dead /\ xs = 0 /\ Len(Ev.ids) = 1
  /\ LET i == Ev.ids[1] IN i \in DOMAIN pend /\ pend[i] /\ i \notin done /\ run' = {i} /\ done' = done \cup {i}
  /\ UNCHANGED <<pend, sd, dead, xs>>
ExportDone == Step("exported") /\ run # {} /\ run' = {} /\ UNCHANGED <<pend, done, sd, dead, xs>>
Emitted ==  \* its export has ended; only a shutdown excuses an item that was not exported
  /\ Step("emitted") /\ (pend[Ev.id] => (Ev.id \in done \/ sd)) /\ Ev.id \notin run
  /\ pend' = [i \in DOMAIN pend \ {Ev.id} |-> pend[i]] /\ UNCHANGED <<run, done, sd, dead, xs>>
Call == Step("call") /\ sd' = (sd \/ Ev.op = "shutdown") /\ UNCHANGED <<pend, run, done, dead, xs>>
Ret == /\ Step("ret") /\ (Ev.op = "shutdown" => xs > 0)
       /\ dead' = (dead \/ Ev.op = "shutdown") /\ UNCHANGED <<pend, run, done, sd, xs>>
ExporterDown == Step("xshutdown") /\ sd /\ run = {} /\ xs' = xs + 1 /\ UNCHANGED <<pend, run, done, sd, dead>>
ExporterIsDown == Step("xdown") /\ UNCHANGED <<pend, run, done, sd, dead, xs>>
End == Step("end") /\ pend = <<>> /\ run = {} /\ UNCHANGED <<pend, run, done, sd, dead, xs>>
\* says how far the run could be followed (after all other conditions: TLC evaluates in order)
Report == at' # at => /\ PrintT("@@AT " \o ToString(tid) \o " " \o ToString(at + 1))
                      /\ (at + 1 = Len(Tr) => PrintT("@@ACCEPT " \o ToString(tid)))
Next == (Emit \/ Export \/ ExportDone \/ Emitted \/ Call \/ Ret \/ ExporterDown \/ ExporterIsDown \/ End) /\ Report
Sane == Cardinality(run) <= 1 /\ (dead => sd) /\ (xs > 0 => sd)
=============================================================================
