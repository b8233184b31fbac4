---------------------------- MODULE PeriodicTrace ----------------------------
(* A meter provider with a periodic reader, seen from outside: recordings,   *)
(* flush and shutdown calls, exports (with the measurements they cover) and  *)
(* the exporter's shutdown.  When a collection happens is not visible; what  *)
(* an export contains, and that it comes in time, is.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, at, begun, done, rep, run, calls, sd, dead, xs, xd
\* begun/done: recordings; rep: what exports reported so far; run: the running export;
\* calls: pending calls; sd: a shutdown was called; dead: one has returned; xs, xd: the exporter's shutdowns
vars == <<tid, at, begun, done, rep, run, calls, sd, dead, xs, xd>>
Tr == Traces[tid]
Ev == Tr[at + 1]
Delta == Tr[1].delta
None == [c \in {} |-> 0]
Init == /\ tid \in 1..Len(Traces) /\ at = 1 /\ begun = {} /\ done = {} /\ rep = {} /\ run = <<>> /\ calls = None
        /\ sd = FALSE /\ dead = FALSE /\ xs = 0 /\ xd = 0
Step(e) == /\ at < Len(Tr) /\ Ev.e = e /\ at' = at + 1 /\ UNCHANGED tid
Rec == Step("rec") /\ begun' = begun \cup {Ev.m} /\ UNCHANGED <<done, rep, run, calls, sd, dead, xs, xd>>
RecDone == Step("recd") /\ done' = done \cup {Ev.m} /\ UNCHANGED <<begun, rep, run, calls, sd, dead, xs, xd>>
Ids == {Ev.ids[k] : k \in 1..Len(Ev.ids)}
Export ==   \* one at a time, never after the exporter was shut down, and with something to say
  /\ Step("export") /\ run = <<>> /\ xs = 0 /\ Ids # {} /\ Ids \subseteq begun
  /\ IF Delta THEN Ids \cap rep = {} ELSE rep \subseteq Ids
  /\ rep' = rep \cup Ids
  /\ run' = <<[x |-> Ev.x, ids |-> Ids, ok |-> Ev.ok, in |-> DOMAIN calls]>>
  /\ UNCHANGED <<begun, done, calls, sd, dead, xs, xd>>
Exported ==
  /\ Step("exported") /\ run # <<>> /\ run[1].x = Ev.x /\ run' = <<>>
  /\ calls' = [c \in DOMAIN calls |->
                 IF c \in run[1].in
                 THEN [calls[c] EXCEPT !.cov = @ \cup run[1].ids, !.failed = @ \/ ~run[1].ok \/ Ev.cut]
                 ELSE calls[c]]
  /\ UNCHANGED <<begun, done, rep, sd, dead, xs, xd>>
Call ==
  /\ Step("call")
  /\ calls' = (Ev.c :> [op |-> Ev.op, due |-> IF Delta THEN done \ rep ELSE done, cov |-> {}, failed |-> FALSE, late |-> dead,
                        first |-> Ev.op # "flush" /\ ~sd]) @@ calls
  /\ sd' = (sd \/ Ev.op # "flush") /\ UNCHANGED <<begun, done, rep, run, dead, xs, xd>>
Ret ==
  /\ Step("ret")
  /\ LET c == calls[Ev.c] IN
     /\ c.late => Ev.res \in {"already", "dropped"}
     /\ Ev.res = "already" => sd
     /\ Ev.res = "timeout" => FALSE
     \* what was recorded before a successful flush, and before any shutdown, has been exported
     /\ Ev.res = "ok" => c.due \subseteq c.cov
     /\ (Ev.op # "flush" /\ Ev.res # "already" /\ ~c.late) => c.due \subseteq c.cov /\ xs = 1 /\ xd = 1 /\ run = <<>>
     \* a flush whose only export failed, or was cut off, does not report success
     /\ Ev.res = "ok" /\ Tr[1].solo => ~c.failed
  /\ calls' = [c \in DOMAIN calls \ {Ev.c} |-> calls[c]]
  /\ dead' = (dead \/ (Ev.op # "flush" /\ Ev.res # "already"))
  /\ UNCHANGED <<begun, done, rep, run, sd, xs, xd>>
Down == Step("xshutdown") /\ sd /\ run = <<>> /\ xs = 0 /\ xs' = 1 /\ UNCHANGED <<begun, done, rep, run, calls, sd, dead, xd>>
IsDown == Step("xdown") /\ xd' = 1 /\ UNCHANGED <<begun, done, rep, run, calls, sd, dead, xs>>
\* the timer has had time: everything recorded is exported (unless the reader is shut down)
Settled == Step("settled") /\ (sd \/ done \subseteq rep) /\ UNCHANGED <<begun, done, rep, run, calls, sd, dead, xs, xd>>
End == Step("end") /\ run = <<>> /\ calls = None /\ (dead => xs = 1) /\ UNCHANGED <<begun, done, rep, run, calls, sd, dead, xs, xd>>
\* says how far the run could be followed (after all other conditions: TLC evaluates in order)
Report == at' # at => /\ PrintT("@@AT " \o ToString(tid) \o " " \o ToString(at + 1))
                      /\ (at + 1 = Len(Tr) => PrintT("@@ACCEPT " \o ToString(tid)))
Next == (Rec \/ RecDone \/ Export \/ Exported \/ Call \/ Ret \/ Down \/ IsDown \/ Settled \/ End) /\ Report
Sane == Len(run) <= 1 /\ rep \subseteq begun /\ (xs > 0 => sd)
=============================================================================
