------------------------------ MODULE SpanTree ------------------------------
(***************************************************************************)
(* Span identity, parentage and sampling (properties T04 and T05).         *)
(* A trace is named by the number of the span that started it, or by the   *)
(* remote parent it came with; ids are the numbers of the spans.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Cover
CONSTANTS Samplers, MaxSpans, MaxOps, SimLen, Pick(_)
VARIABLES smp, spans, down, n, hist
vars == <<smp, spans, down, n, hist>>
View == <<smp, spans, down, n>>

\* sampled / unsampled remote parents, each with its own trace state; RX and RY carry every other
\* flag bit as well, of which only the sampled bit may matter
Remotes == {"RS", "RU", "RX", "RY"}
RemoteTs(r) == CASE r = "RS" -> "rs=1" [] r = "RU" -> "ru=1" [] r = "RX" -> "rx=1,b=2" [] r = "RY" -> ""
NoSpan == [tr |-> "none", id |-> 0, par |-> "none", sampled |-> FALSE, ts |-> "", rec |-> FALSE, valid |-> FALSE, ended |-> TRUE]

\* parents: none | cur (an empty current context) | RS | RU | invalid | suppressed | a span i
Parents == Remotes \cup {"none", "invalid", "suppressed"}
Decision(s, p, psampled, hasp) ==
    CASE s \in {"on", "ratio1", "ratio2", "ts"} -> "sample"
      [] s \in {"off", "ratio0", "rationeg"} -> "drop"
      [] s = "reconly" -> "record"
      [] s \in {"pb_on", "pb_ratio1", "pb_pb_on"} -> IF hasp THEN IF psampled THEN "sample" ELSE "drop" ELSE "sample"
      [] s \in {"pb_off", "pb_ratio0"} -> IF hasp THEN IF psampled THEN "sample" ELSE "drop" ELSE "drop"
      [] s = "pb_reconly" -> IF hasp THEN IF psampled THEN "sample" ELSE "drop" ELSE "record"
PB(s) == s \in {"pb_on", "pb_off", "pb_ratio1", "pb_ratio0", "pb_pb_on", "pb_reconly"}

IsSpan(p) == p \notin Parents
Num(p) == CHOOSE i \in 1..Len(spans) : ToString(i) = p
ParentOf(p) == IF p \in {"none", "suppressed"} THEN NoSpan
               ELSE IF p = "invalid" THEN NoSpan
               ELSE IF p \in Remotes THEN [NoSpan EXCEPT !.tr = p, !.sampled = (p \in {"RS", "RX"}), !.ts = RemoteTs(p), !.valid = TRUE]
               ELSE spans[Num(p)]
\* an active parent whose span context is invalid
Hollow(p) == p = "invalid" \/ (IsSpan(p) /\ ~spans[Num(p)].valid)

New(i, p) ==
    LET pa == ParentOf(p)
        hasp == pa.valid
        d == Decision(smp, p, pa.sampled, hasp)
    IN IF p = "suppressed" \/ down THEN NoSpan
       ELSE [tr |-> IF hasp THEN pa.tr ELSE ToString(i), id |-> i,
             par |-> IF hasp THEN p ELSE "none",
             sampled |-> d = "sample", ts |-> IF smp = "ts" THEN "new=1" ELSE pa.ts,
             rec |-> d # "drop", valid |-> TRUE, ended |-> d = "drop"]
\* what is seen of a span from outside
Seen(s) == [valid |-> s.valid, tr |-> IF s.valid THEN s.tr ELSE "none", fresh |-> s.valid, sampled |-> s.sampled,
            ts |-> s.ts, rec |-> s.rec /\ ~s.ended, remote |-> FALSE]
Told(s) == [tr |-> s.tr, id |-> s.id, par |-> s.par, sampled |-> s.sampled, ts |-> s.ts]

Init == /\ smp \in Samplers /\ spans = <<>> /\ down = FALSE /\ n = 0
        /\ hist = <<[op |-> "tree_init", smp |-> smp, exp |-> [ok |-> TRUE]]>>
Start(p, how) ==
    /\ Len(spans) < MaxSpans
    /\ ~(PB(smp) /\ ~down /\ Hollow(p))       \* left open
    /\ LET i == Len(spans) + 1
           s == New(i, p)
       IN /\ spans' = Append(spans, s)
          /\ hist' = Append(hist, [op |-> "tree_start", p |-> p, how |-> how,
                                   exp |-> [seen |-> Seen(s)]])
    /\ n' = n + 1 /\ UNCHANGED <<smp, down>>
\* the processor that takes everything is told of recorded spans, the exporter gets sampled ones
End(i) ==
    /\ spans' = [spans EXCEPT ![i].ended = TRUE]
    /\ LET s == spans[i]
           rep == s.rec /\ ~s.ended /\ ~down IN
       hist' = Append(hist, [op |-> "tree_end", i |-> i,
                exp |-> [told |-> IF rep THEN <<Told(s)>> ELSE <<>>,
                         exported |-> IF rep /\ s.sampled THEN <<Told(s)>> ELSE <<>>]])
    /\ n' = n + 1 /\ UNCHANGED <<smp, down>>
Shutdown == /\ ~down /\ down' = TRUE /\ n' = n + 1 /\ UNCHANGED <<smp, spans>>
            /\ hist' = Append(hist, [op |-> "tree_shutdown", exp |-> [ok |-> TRUE]])
\* many threads start root spans at once
Burst(k) == /\ ~down /\ n' = n + 1 /\ UNCHANGED <<smp, spans, down>>
            /\ hist' = Append(hist, [op |-> "tree_burst", threads |-> 6, k |-> k,
                                     exp |-> [distinct |-> TRUE, valid |-> TRUE]])

Next == /\ n < MaxOps
        /\ \/ \E p \in Pick(Parents \cup {ToString(i) : i \in 1..Len(spans)}), how \in Pick({"explicit", "current", "builder"}) : Start(p, how)
           \/ \E i \in Pick(1..Len(spans)) : End(i)
           \/ Shutdown
           \/ (n = 0 /\ Burst(400))
NextSim == Len(hist) < SimLen /\ (Next \/ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

\* T04: a span is in its parent's trace; traces are started by parentless spans only
Parentage == \A i \in 1..Len(spans) : LET s == spans[i] IN
    s.valid => /\ s.tr # "none"
               /\ (s.par = "none" => s.tr = ToString(i))
               /\ \A j \in 1..Len(spans) : s.par = ToString(j) => s.tr = spans[j].tr /\ j < i
\* T05: with a parent-based sampler a trace is sampled as a whole
Whole == PB(smp) => \A i, j \in 1..Len(spans) :
    (spans[i].valid /\ spans[j].valid /\ spans[i].tr = spans[j].tr /\ smp # "pb_reconly") => spans[i].sampled = spans[j].sampled
Inv == Parentage /\ Whole
EmitT == Emit(hist')
EmitSim == Len(hist') = SimLen => Emit(hist')
=============================================================================
