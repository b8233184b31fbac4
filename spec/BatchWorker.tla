----------------------------- MODULE BatchWorker -----------------------------
(* The thread-based batch processors (spans and log records) at the grain of *)
(* their atomic steps: producers count an item, put it in the bounded        *)
(* channel and poke the worker; the worker drains on pokes, timer ticks,     *)
(* flushes and shutdown; flush and shutdown wait for the worker's answer.    *)
(*                                                                           *)
(* TLC checks the guarantees below for every interleaving of small programs. *)
(* The variants (constants AddFirst, DrainAll, StopEmpty) are the designs    *)
(* this code base had: each loses a guarantee, which the checks expect TLC   *)
(* to find.  Random walks of this specification are also the schedules under *)
(* which the real processors are run (module BatchTrace judges those runs):  *)
(* `hist` is the sequence of threads that took a step.                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt, Cover
CONSTANTS Cap, Batch,      \* queue capacity, maximum batch size
          Progs,           \* the programs: function from thread to its operations
          HasFlag,         \* spans: a shutdown flag is tested before anything else
          AddFirst,        \* an item is counted before it is queued
          DrainAll,        \* a flush exports more than one batch
          StopEmpty,       \* the drain loop ends on an empty queue
          Timers,          \* how many timer ticks may happen
          Pick(_), SimLen
VARIABLES prog, pc, ip, q, cnt, b, mq, poked, wpc, wt, wtot, wbuf, wcur, ans, out,
          isd, alive, ticks, acc, done, snap, xshut, hist
core == <<prog, pc, ip, q, cnt, b, mq, poked, wpc, wt, wtot, wbuf, wcur, ans, out, isd, alive, ticks,
          acc, done, snap, xshut>>
vars == <<core, hist>>
Threads == DOMAIN prog
Op(a) == prog[a][ip[a]]
Busy(a) == ip[a] <= Len(prog[a])
Item(a) == a \o ToString(ip[a])
Exported == UNION {ToSet(out[i]) : i \in 1..Len(out)}

Init ==
  /\ prog \in Pick(Progs)
  /\ pc = [a \in Threads |-> "idle"] /\ ip = [a \in Threads |-> 1]
  /\ q = <<>> /\ cnt = 0 /\ b = [a \in Threads |-> 0] /\ mq = <<>> /\ poked = FALSE
  /\ wpc = "recv" /\ wt = 0 /\ wtot = 0 /\ wbuf = <<>> /\ wcur = [k |-> "none", by |-> ""]
  /\ ans = [a \in Threads |-> "none"] /\ out = <<>> /\ isd = FALSE /\ alive = TRUE /\ ticks = 0
  /\ acc = <<>> /\ done = {} /\ snap = [a \in Threads |-> {}] /\ xshut = 0 /\ hist = <<>>

H(a) == hist' = IF SimLen > 0 THEN Append(hist, a) ELSE hist
Goto(a, l) == pc' = [pc EXCEPT ![a] = l]
Return(a) == pc' = [pc EXCEPT ![a] = "idle"] /\ ip' = [ip EXCEPT ![a] = @ + 1]
Worker == <<wpc, wt, wtot, wbuf, wcur, out, ticks, xshut>>

(*---- producers ----*)
EmitCheck(a) ==
  /\ Busy(a) /\ Op(a) = "emit" /\ pc[a] = "idle"
  /\ IF HasFlag /\ isd THEN Return(a) ELSE Goto(a, "checked") /\ UNCHANGED ip
  /\ UNCHANGED <<prog, q, cnt, b, mq, poked, ans, isd, alive, acc, done, snap, Worker>>
EmitCount(a) ==
  /\ Busy(a) /\ Op(a) = "emit" /\ pc[a] = "checked" /\ Goto(a, "counted")
  /\ IF AddFirst THEN cnt' = cnt + 1 /\ b' = [b EXCEPT ![a] = cnt + 1] ELSE UNCHANGED <<cnt, b>>
  /\ UNCHANGED <<prog, ip, q, mq, poked, ans, isd, alive, acc, done, snap, Worker>>
EmitSend(a) ==
  /\ Busy(a) /\ Op(a) = "emit" /\ pc[a] = "counted"
  /\ IF alive /\ Len(q) < Cap
     THEN /\ q' = Append(q, Item(a)) /\ acc' = Append(acc, Item(a)) /\ Goto(a, "sent")
          /\ UNCHANGED <<ip, cnt>>
     ELSE /\ cnt' = (IF AddFirst THEN cnt - 1 ELSE cnt) /\ Return(a) /\ UNCHANGED <<q, acc>>
  /\ UNCHANGED <<prog, b, mq, poked, ans, isd, alive, done, snap, Worker>>
EmitPoke(a) ==
  /\ Busy(a) /\ Op(a) = "emit" /\ pc[a] = "sent" /\ Return(a) /\ done' = done \cup {Item(a)}
  /\ cnt' = (IF AddFirst THEN cnt ELSE cnt + 1)
  /\ LET n == IF AddFirst THEN b[a] ELSE cnt + 1 IN
     IF n >= Batch /\ ~poked
     THEN poked' = TRUE /\ mq' = Append(mq, [k |-> "poke", by |-> ""])
     ELSE UNCHANGED <<poked, mq>>
  /\ UNCHANGED <<prog, q, b, ans, isd, alive, acc, snap, Worker>>

(*---- flush and shutdown ----*)
CtlCheck(a) ==
  /\ Busy(a) /\ Op(a) # "emit" /\ pc[a] = "idle"
  /\ snap' = [snap EXCEPT ![a] = done] /\ ans' = [ans EXCEPT ![a] = "none"]
  /\ isd' = (isd \/ Op(a) = "shutdown")
  /\ IF HasFlag /\ isd THEN Return(a) ELSE Goto(a, "checked") /\ UNCHANGED ip
  /\ UNCHANGED <<prog, q, cnt, b, mq, poked, alive, acc, done, Worker>>
CtlSend(a) ==
  /\ Busy(a) /\ Op(a) # "emit" /\ pc[a] = "checked"
  /\ IF alive THEN mq' = Append(mq, [k |-> Op(a), by |-> a]) /\ Goto(a, "wait") /\ UNCHANGED ip
     ELSE Return(a) /\ UNCHANGED mq
  /\ UNCHANGED <<prog, q, cnt, b, poked, ans, isd, alive, acc, done, snap, Worker>>
CtlReturn(a) ==
  /\ Busy(a) /\ Op(a) # "emit" /\ pc[a] = "wait" /\ (ans[a] # "none" \/ ~alive) /\ Return(a)
  /\ UNCHANGED <<prog, q, cnt, b, mq, poked, ans, isd, alive, acc, done, snap, Worker>>

(*---- the worker ----*)
WRecv ==
  /\ wpc = "recv" /\ mq # <<>> /\ mq' = Tail(mq) /\ wcur' = Head(mq) /\ wpc' = "target"
  /\ poked' = IF Head(mq).k = "poke" THEN FALSE ELSE poked
  /\ UNCHANGED <<prog, pc, ip, q, cnt, b, wt, wtot, wbuf, ans, out, isd, alive, ticks, acc, done, snap, xshut>>
WTick ==
  /\ wpc = "recv" /\ mq = <<>> /\ ticks < Timers /\ ticks' = ticks + 1
  /\ wcur' = [k |-> "tick", by |-> ""] /\ wpc' = "target"
  /\ UNCHANGED <<prog, pc, ip, q, cnt, b, mq, poked, wt, wtot, wbuf, ans, out, isd, alive, acc, done, snap, xshut>>
WTarget ==
  /\ wpc = "target" /\ wt' = cnt /\ wtot' = 0
  /\ wpc' = IF cnt <= 0 /\ ~HasFlag THEN "reply" ELSE "take"   \* log records: nothing counted, nothing taken
  /\ UNCHANGED <<prog, pc, ip, q, cnt, b, mq, poked, wbuf, wcur, ans, out, isd, alive, ticks, acc, done, snap, xshut>>
WTake ==
  /\ wpc = "take"
  /\ IF q # <<>> /\ Len(wbuf) < Batch
     THEN q' = Tail(q) /\ wbuf' = Append(wbuf, Head(q)) /\ UNCHANGED <<wpc, out>>
     ELSE /\ wpc' = "sub" /\ out' = (IF wbuf = <<>> THEN out ELSE Append(out, wbuf)) /\ UNCHANGED <<q, wbuf>>
  /\ UNCHANGED <<prog, pc, ip, cnt, b, mq, poked, wt, wtot, wcur, ans, isd, alive, ticks, acc, done, snap, xshut>>
WSub ==
  /\ wpc = "sub" /\ cnt' = cnt - Len(wbuf) /\ wtot' = wtot + Len(wbuf) /\ wbuf' = <<>>
  /\ wpc' = IF ~DrainAll \/ wtot + Len(wbuf) >= wt \/ (StopEmpty /\ wbuf = <<>>) THEN "reply" ELSE "take"
  /\ UNCHANGED <<prog, pc, ip, q, b, mq, poked, wt, wcur, ans, out, isd, alive, ticks, acc, done, snap, xshut>>
WReply ==
  /\ wpc = "reply"
  /\ ans' = IF wcur.by = "" THEN ans ELSE [ans EXCEPT ![wcur.by] = "ok"]
  /\ alive' = (wcur.k # "shutdown") /\ xshut' = (IF wcur.k = "shutdown" THEN xshut + 1 ELSE xshut)
  /\ wpc' = IF wcur.k = "shutdown" THEN "exit" ELSE "recv"
  /\ UNCHANGED <<prog, pc, ip, q, cnt, b, mq, poked, wt, wtot, wbuf, wcur, out, isd, ticks, acc, done, snap>>
WStep == WRecv \/ WTick \/ WTarget \/ WTake \/ WSub \/ WReply

TStep(a) == EmitCheck(a) \/ EmitCount(a) \/ EmitSend(a) \/ EmitPoke(a)
            \/ CtlCheck(a) \/ CtlSend(a) \/ CtlReturn(a)
Next == \E a \in Pick(Threads \cup {"w"}) :
          \/ a \in Threads /\ TStep(a) /\ H(a)
          \/ a = "w" /\ WStep /\ H("w")
Safe == Init /\ [][Next]_vars
Spec == Init /\ [][Next]_vars /\ WF_vars(WStep /\ H("w")) /\ \A a \in {"p1", "p2", "c1", "c2"} :
           WF_vars(TStep(a) /\ H(a))

(*---- guarantees ----*)
Flat == FlattenSeq(out)
InOrderOnce == IsPrefix(Flat, acc)
BatchBound == \A i \in 1..Len(out) : Len(out[i]) \in 1..Batch
Drained == \A a \in Threads : ans[a] = "ok" => snap[a] \subseteq Exported
Capacity == Len(q) <= Cap
NoUnderflow == cnt >= 0
Counted == AddFirst => cnt >= Len(q) + Len(wbuf)
ShutOnce == xshut <= 1 /\ (wpc = "exit" <=> ~alive)
AllReturn == \A a \in {"p1", "p2", "c1", "c2"} : <>(~Busy(a))

(*---- schedules for the real code ----*)
Finished == \A a \in Threads : ~Busy(a)
NextSim == ~Finished /\ Len(hist) < SimLen /\ (Next \/ UNCHANGED vars)
EmitSim == (Len(hist') = SimLen \/ Finished') => Emit(<<[prog |-> prog, cap |-> Cap, batch |-> Batch, sched |-> hist']>>)
Sys(x, y, c, d) == ("p1" :> x @@ "p2" :> y @@ "c1" :> c @@ "c2" :> d)
E == <<"emit">>
Tiny == {Sys(E, E, c, <<>>) : c \in {<<"flush">>, <<"shutdown">>}}
Small == {Sys(E \o E, E, c, <<>>) : c \in {<<"flush">>, <<"shutdown">>}}
Large == {Sys(E \o E, E \o E, c, <<>>) : c \in {<<"flush">>, <<"shutdown">>}}
         \cup {Sys(E \o E, E, <<"flush">>, <<"shutdown">>), Sys(E, E, <<"flush", "shutdown">>, <<"shutdown">>)}
Walks ==
  {Sys(x, y, c, d) :
     x \in {E \o E, E \o E \o E}, y \in {E \o E, E \o <<"flush">> \o E, E \o E \o E},
     c \in {<<>>, <<"flush">>, <<"flush", "shutdown">>}, d \in {<<"shutdown">>, <<"flush">>, E \o <<"flush">>}}
=============================================================================
