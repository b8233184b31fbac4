----------------------------- MODULE BatchTrace ------------------------------
(* What a batching processor may do, as seen at its boundary: producers hand *)
(* it items, it hands batches to the exporter, flush and shutdown calls      *)
(* return.  TLC decides for every recorded run of the real processors        *)
(* (threads and async runtimes, spans and log records) whether it is a       *)
(* behaviour of this specification.  Hidden steps: when an item handed over  *)
(* enters the queue, or is dropped because the queue is full (an item is     *)
(* taken as dropped if the run never exports it: an item left in the queue   *)
(* would make it inexplicable later).  The order of the queue is not chosen: *)
(* an export may hand out any item that no other one in the queue precedes,  *)
(* i.e. was handed over completely before it.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS Deliver,   \* judge order, batch sizes and the capacity of the queue
          Drain      \* judge what flush and shutdown report
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, at,
          q,       \* accepted, not yet handed to the exporter
          pre,     \* for each item handed over and not exported: the items that precede it
          pend,    \* handed to the processor, neither accepted nor dropped yet
          open,    \* the call handing it over has not returned
          acc,     \* accepted and not yet exported (an export in progress counts as not)
          run,     \* exports in progress: <<number, items>>
          snaps,   \* flush and shutdown calls in progress: what they have to drain
          late,    \* shutdown calls begun after a shutdown had returned
          must,    \* accepted before the first shutdown call, still to be exported
          sd, sdret, xs, xd, dead
vars == <<tid, at, q, pre, pend, open, acc, run, snaps, late, must, sd, sdret, xs, xd, dead>>
Tr == Traces[tid]
C == Tr[1]
Fifo == Deliver /\ C.kind \in {"span", "log"}
Strict == C.kind \in {"span", "log"}      \* documented to report that they are already shut down
Ev == Tr[at + 1]
Delivered == UNION {IF Tr[k].e = "export" THEN ToSet(Tr[k].ids) ELSE {} : k \in 1..Len(Tr)}
Init == /\ tid \in 1..Len(Traces) /\ at = 1 /\ q = {} /\ pre = <<>> /\ TLCSet(tid, 1) /\ pend = {} /\ open = {} /\ acc = {} /\ run = {}
        /\ snaps = <<>> /\ late = {} /\ must = {} /\ sd = FALSE /\ sdret = FALSE /\ xs = 0 /\ xd = FALSE
        /\ dead = FALSE
Queue == <<q, pre, acc, run>>
Ctl == <<snaps, late, must, sd, sdret, xs, xd, dead>>

(*---- hidden: an item in transit is accepted or dropped ----*)
Hidden == at < Len(Tr) /\ Ev.e \in {"emitted", "export"} /\ UNCHANGED <<tid, at, pre, open, run, Ctl>>
InFlight == IF Strict THEN 0 ELSE Cardinality(DOMAIN snaps)   \* async: these use the same channel
Size == Cardinality(q)
Accept(i) ==
  /\ i \in Delivered /\ (Deliver => Size < C.cap + (IF run = {} THEN C.batch ELSE 0)) /\ Hidden
  /\ pend' = pend \ {i} /\ q' = q \cup {i} /\ acc' = acc \cup {i}
\* async processors whose queue was full refuse to shut down, and then never export what is left;
\* not so what was handed over before a later flush or shutdown that reported success
LeftOver == ~Strict /\ ~\E k \in (at + 1)..Len(Tr) :
              \/ Tr[k].e = "settled"
              \/ Tr[k].e = "call" /\ \E j \in k..Len(Tr) : Tr[j].e = "ret" /\ Tr[j].c = Tr[k].c /\ Tr[j].res = "ok"
DropIt(i) ==
  /\ i \notin Delivered /\ (sd \/ Size + InFlight >= C.cap \/ LeftOver) /\ Hidden
  /\ pend' = pend \ {i} /\ UNCHANGED <<q, acc>>

(*---- observed ----*)
Step(e) == /\ at < Len(Tr) /\ Ev.e = e /\ at' = at + 1 /\ UNCHANGED tid
Emit == Step("emit") /\ open' = open \cup {Ev.id} /\ pend' = (IF Ev.s THEN pend \cup {Ev.id} ELSE pend)
        /\ pre' = (IF Ev.s THEN (Ev.id :> (q \ open)) @@ pre ELSE pre)
        /\ UNCHANGED <<q, acc, run, Ctl>>
Emitted == Step("emitted") /\ Ev.id \in open \ pend /\ open' = open \ {Ev.id} /\ UNCHANGED <<pend, Queue, Ctl>>
Export ==
  /\ Step("export") /\ xs = 0 /\ ~dead
  /\ LET ids == Ev.ids  S == ToSet(ids) IN
     /\ Cardinality(S) = Len(ids) /\ S \subseteq q
     /\ Deliver => Len(ids) \in 1..C.batch /\ Cardinality(run) < C.conc
     /\ Fifo => \A k \in 1..Len(ids) : pre[ids[k]] \cap q \subseteq {ids[m] : m \in 1..(k - 1)}
     /\ q' = q \ S /\ pre' = [i \in DOMAIN pre \ S |-> pre[i]]
     /\ run' = run \cup {<<Ev.x, S>>}
  /\ UNCHANGED <<pend, open, acc, Ctl>>
ExportDone ==
  /\ Step("exported")
  /\ \E r \in run : /\ r[1] = Ev.x /\ run' = run \ {r} /\ acc' = acc \ r[2] /\ must' = must \ r[2]
                    /\ snaps' = [c \in DOMAIN snaps |-> snaps[c] \ r[2]]
  /\ UNCHANGED <<q, pre, pend, open, late, sd, sdret, xs, xd, dead>>
Call ==
  /\ Step("call") /\ snaps' = (Ev.c :> (acc \ open)) @@ snaps
  /\ late' = IF sdret /\ Ev.op = "shutdown" THEN late \cup {Ev.c} ELSE late
  /\ must' = IF Ev.op = "shutdown" /\ ~sd THEN acc \ open ELSE must   \* handed over before the shutdown
  /\ sd' = (sd \/ Ev.op = "shutdown") /\ UNCHANGED <<pend, open, Queue, sdret, xs, xd, dead>>
Ret ==
  /\ Step("ret")
  /\ Drain =>
       /\ Ev.res = "ok" => snaps[Ev.c] = {}
       /\ Ev.res = "ok" /\ Ev.op = "shutdown" => xs = 1 /\ xd /\ run = {}
       /\ Strict /\ Ev.c \in late => Ev.res = "already"
  /\ snaps' = [c \in DOMAIN snaps \ {Ev.c} |-> snaps[c]]
  /\ sdret' = (sdret \/ Ev.op = "shutdown") /\ dead' = (dead \/ (Drain /\ Ev.op = "shutdown" /\ Ev.res = "ok"))
  /\ UNCHANGED <<pend, open, Queue, late, must, sd, xs, xd>>
ExporterDown ==
  /\ Step("xshutdown") /\ (Drain => run = {} /\ xs = 0 /\ sd)
  /\ xs' = xs + 1 /\ UNCHANGED <<pend, open, Queue, snaps, late, must, sd, sdret, xd, dead>>
ExporterIsDown ==
  /\ Step("xdown") /\ xd' = TRUE /\ UNCHANGED <<pend, open, Queue, snaps, late, must, sd, sdret, xs, dead>>
Settled ==   \* long after the timer: nothing waits
  /\ Step("settled") /\ (C.timer => acc \ open = {} /\ run = {}) /\ UNCHANGED <<pend, open, Queue, Ctl>>
Idle ==      \* a full batch does not wait for the timer
  /\ Step("idle") /\ (Deliver => Cardinality(acc \ open) < C.batch) /\ UNCHANGED <<pend, open, Queue, Ctl>>
End ==       \* an async processor may refuse a shutdown (its queue was full), and go on
  /\ Step("end") /\ open = {} /\ (Strict \/ dead => must = {} /\ run = {} /\ (Drain /\ sd => xs = 1))
  /\ UNCHANGED <<pend, open, Queue, Ctl>>
\* a call made when the worker of an async processor is going away may find its message in
\* nobody's hands, and wait (nothing is claimed for it)
Hung == Step("hang") /\ ~Strict /\ xd /\ UNCHANGED <<pend, open, Queue, Ctl>>
\* says how far the run could be followed (after all other conditions: TLC evaluates in order)
Report == at' # at /\ TLCGet(tid) <= at =>
            /\ TLCSet(tid, at + 1)
            /\ PrintT("@@AT " \o ToString(tid) \o " " \o ToString(at + 1))
            /\ (at + 1 = Len(Tr) => PrintT("@@ACCEPT " \o ToString(tid)))
Next == /\ \/ \E i \in pend : Accept(i) \/ DropIt(i)
           \/ Emit \/ Emitted \/ Export \/ ExportDone \/ Call \/ Ret \/ ExporterDown \/ ExporterIsDown \/ Settled \/ Idle \/ End \/ Hung
        /\ Report
(* Consequences of the specification itself, for every accepted run *)
Sane == /\ q \subseteq acc /\ pend \cap acc = {}
        /\ must \subseteq acc /\ (xs > 1 => ~Drain)
=============================================================================
