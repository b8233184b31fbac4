------------------------------ MODULE Providers ------------------------------
(***************************************************************************)
(* The life of a tracer or logger provider (property S02): fan-out to the  *)
(* processors, flush, shutdown, and what happens when the last handle goes.*)
(* Handles of the provider, tracers (loggers) and spans refer to it; those *)
(* obtained after its shutdown refer to nothing.                           *)
(* A processor fails its flush or shutdown if its behaviour says so.       *)
(* Meter providers (property M12) have readers instead of processors;      *)
(* meters do not keep the provider. The readers of the harness go on       *)
(* collecting after their shutdown, so that one can see what is recorded.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Cover
CONSTANTS Kinds, Setups, MaxH, MaxT, MaxS, MaxOps, SimLen, Pick(_)
VARIABLES kind,    \* "trace", "log" or "meter"
          procs,   \* one behaviour per processor: "ok", "ff" (flush fails), "sf" (shutdown fails), "bf" (both), "off" (log: not enabled)
          h,       \* handles that are alive
          ts,      \* tracers or loggers: "live", "noop", "gone"
          ss,      \* spans: "rec", "non", "ended" with what they refer to
          sd,      \* shut down
          dead,    \* the provider is gone
          nm,      \* the scope of each tracer, logger or meter
          m,       \* meters: what the counter of each scope has counted
          n, hist
vars == <<kind, procs, h, ts, ss, sd, dead, nm, m, n, hist>>

Procs(s) == CASE s = "one" -> <<"ok">>
              [] s = "none" -> <<>>
              [] s = "two" -> <<"ok", "ok">>
              [] s = "bad1" -> <<"bf", "ok">>
              [] s = "bad2" -> <<"ff", "sf", "ok">>
              [] s = "bad3" -> <<"ok", "bf", "off">>
              [] s = "off" -> <<"off", "ok">>
              [] s = "offs" -> <<"off", "off">>
P == 1..Len(procs)
All(what) == [i \in P |-> what \o ToString(i)]
Tells(what, k) == [i \in P |-> what \o ToString(i) \o ":" \o ToString(k)]

Refs(h2, t2, s2) == h2 + (IF kind = "meter" THEN 0 ELSE Cardinality({i \in DOMAIN t2 : t2[i] = "live"}))
                       + Cardinality({i \in DOMAIN s2 : s2[i].held})
Init ==
  /\ kind \in Pick(Kinds) /\ \E s \in Pick(Setups) : procs = Procs(s)
  /\ h = 1 /\ ts = <<>> /\ ss = <<>> /\ sd = FALSE /\ dead = FALSE /\ n = 0 /\ nm = <<>> /\ m = <<>>
  /\ hist = <<[op |-> "prov_init", kind |-> kind, procs |-> procs, exp |-> [told |-> IF kind = "meter" THEN <<>> ELSE All("r")]]>>

\* the step's result and what the processors are told; the last reference shuts down
DoM(h2, t2, s2, sd2, r, told, res) ==
  LET gone == ~dead /\ Refs(h2, t2, s2) = 0
      last == IF gone /\ ~sd2 THEN All("s") ELSE <<>> IN
  /\ h' = h2 /\ ts' = t2 /\ ss' = s2 /\ sd' = (sd2 \/ gone) /\ dead' = (dead \/ gone) /\ n' = n + 1
  /\ hist' = Append(hist, r @@ [exp |-> [told |-> told \o last] @@ res])
  /\ UNCHANGED <<kind, procs>>
Do(h2, t2, s2, sd2, r, told, res) == DoM(h2, t2, s2, sd2, r, told, res) /\ UNCHANGED <<nm, m>>
None == [x \in {} |-> 0]
Clone == h > 0 /\ h < MaxH /\ Do(h + 1, ts, ss, sd, [op |-> "clone"], <<>>, None)
DropHandle == h > 0 /\ Do(h - 1, ts, ss, sd, [op |-> "drop"], <<>>, None)
\* a meter may have the scope of an earlier one; its counter is the same then
Obtain(j) == /\ h > 0 /\ Len(ts) < MaxT
             /\ (j = Len(ts) + 1 \/ (kind = "meter" /\ j \in DOMAIN ts))
             /\ DoM(h, Append(ts, IF sd THEN "noop" ELSE "live"), ss, sd, [op |-> "obtain", name |-> j], <<>>, None)
             /\ nm' = Append(nm, j) /\ m' = Append(m, 0)
DropT(i) == ts[i] # "gone" /\ Do(h, [ts EXCEPT ![i] = "gone"], ss, sd, [op |-> "drop_t", i |-> i], <<>>, None)
Flush == h > 0 /\ ~sd
         /\ Do(h, ts, ss, sd, [op |-> "flush"], All("f"), [ok |-> \A i \in P : procs[i] \notin {"ff", "bf"}])
Shutdown ==
  h > 0 /\ Do(h, ts, ss, TRUE, [op |-> "shutdown"], IF sd THEN <<>> ELSE All("s"),
              [res |-> IF sd THEN "already" ELSE IF \E i \in P : procs[i] \in {"sf", "bf"} THEN "failed" ELSE "ok"])
\* trace
Start(i) ==
  /\ kind = "trace" /\ ts[i] # "gone" /\ Len(ss) < MaxS
  /\ LET rec == ts[i] = "live" /\ ~sd  k == Len(ss) + 1 IN
     Do(h, ts, Append(ss, [st |-> IF rec THEN "rec" ELSE "non", held |-> ts[i] = "live" /\ rec]), sd,
        [op |-> "start", i |-> i, k |-> k], IF rec THEN Tells("b", k) ELSE <<>>, [rec |-> rec])
Finish(k, how) ==
  /\ ss[k].st # "gone" /\ (how = "end" => ss[k].st # "ended")
  /\ LET tell == ss[k].st = "rec" /\ ~sd IN
     Do(h, ts, [ss EXCEPT ![k] = IF how = "end" THEN [st |-> "ended", held |-> @.held] ELSE [st |-> "gone", held |-> FALSE]], sd,
        [op |-> how, k |-> k], IF tell THEN Tells("e", k) ELSE <<>>, None)
\* log: a logger obtained before the shutdown may go on handing records to the processors
Record(i) ==
  /\ kind = "log" /\ ts[i] # "gone" /\ (ts[i] = "live" => ~sd)
  /\ Do(h, ts, ss, sd, [op |-> "record", i |-> i, k |-> n], IF ts[i] = "live" THEN Tells("l", n) ELSE <<>>, None)
Enabled(i) ==
  /\ kind = "log" /\ ts[i] # "gone" /\ (ts[i] = "live" => ~sd)
  /\ Do(h, ts, ss, sd, [op |-> "enabled", i |-> i], <<>>, [ok |-> ts[i] = "live" /\ \E j \in P : procs[j] # "off"])
\* meter: a meter obtained before the shutdown may go on recording
FlushLate == /\ kind = "meter" /\ h > 0 /\ sd
             /\ Do(h, ts, ss, sd, [op |-> "flush_late"], <<>>, [res |-> "already"])
Add(i) == /\ kind = "meter" /\ ts[i] # "gone" /\ (ts[i] = "live" => ~sd)
          /\ DoM(h, ts, ss, sd, [op |-> "add", i |-> i], <<>>, None)
          /\ m' = (IF ts[i] = "live" THEN [m EXCEPT ![nm[i]] = @ + 1] ELSE m) /\ UNCHANGED nm
Collect == /\ kind = "meter" /\ h > 0
           /\ Do(h, ts, ss, sd, [op |-> "collect"], <<>>,
                 [seen |-> [i \in P |-> [j \in DOMAIN m |-> m[j]]]])
Next == /\ n < MaxOps
        /\ \/ Clone \/ DropHandle \/ Flush \/ FlushLate \/ Collect
           \/ \E j \in 1..MaxT : Obtain(j)
           \/ \E i \in DOMAIN ts : Add(i)
           \/ Shutdown
           \/ \E i \in DOMAIN ts : DropT(i) \/ Start(i) \/ Record(i) \/ Enabled(i)
           \/ \E k \in DOMAIN ss : Finish(k, "end") \/ Finish(k, "drop_s")
NextSim == Len(hist) < SimLen /\ (Next \/ UNCHANGED vars)
View == <<kind, procs, h, ts, ss, sd, dead, nm, m, n>>

Told == LET RECURSIVE A(_) A(i) == IF i = 0 THEN <<>> ELSE A(i - 1) \o hist[i].exp.told IN A(Len(hist))
Times(x) == Cardinality({i \in DOMAIN Told : Told[i] = x})
\* shut down once, at the latest with the last reference; a span is begun and ended at most once
Once == /\ \A i \in P : Times("s" \o ToString(i)) = (IF sd THEN 1 ELSE 0)
        /\ (dead <=> Refs(h, ts, ss) = 0) /\ (dead => sd)
        /\ \A k \in DOMAIN ss : \A i \in P : Times("e" \o ToString(i) \o ":" \o ToString(k)) <= Times("b" \o ToString(i) \o ":" \o ToString(k))
EmitT == Emit(hist')
EmitSim == Len(hist') = SimLen => Emit(hist')
=============================================================================
