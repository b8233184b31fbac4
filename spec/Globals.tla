------------------------------- MODULE Globals -------------------------------
(* What is global in a process (property T08): the tracer provider, the meter *)
(* provider and the propagator in force, what was obtained through them and   *)
(* from whom, and where spans and measurements end up.  Provider 0 does       *)
(* nothing, 1 and 2 record.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Cover
CONSTANTS SimLen, MaxHandles, Scopes, Far
VARIABLES tp, saved, tracers, mp, held, meters, prop, down, mdown, hist
vars == <<tp, saved, tracers, mp, held, meters, prop, down, mdown, hist>>
Providers == {0, 1, 2}
OneOf(S) == RandomElement(S)
Push(step, e) == hist' = Append(hist, step @@ [far |-> IF Far THEN OneOf(BOOLEAN) ELSE FALSE, exp |-> e])
Done == [ok |-> TRUE]
Sc(n, v, u, as) == [name |-> n, version |-> v, schema |-> u, attrs |-> as]
Plain(sc) == sc.version = "" /\ sc.schema = "" /\ sc.attrs = <<>>
TwoScopes == {Sc("a", "", "", <<>>), Sc("a", "1", "http://u", <<[k |-> "x", v |-> "i:1"]>>)}
AllScopes == TwoScopes \cup {Sc("b", "", "", <<>>), Sc("", "", "", <<>>), Sc("a", "", "http://u", <<>>), Sc("a", "2", "", <<>>)}

(*---- tracer providers ----*)
\* the one before is given back, in working order
Probe(p) == IF p = 0 \/ p \in down THEN <<>> ELSE <<p>>
SetTp(to, from, step) ==
    /\ tp' = to /\ saved' = Append(saved, tp)
    /\ UNCHANGED <<tracers, mp, held, meters, prop, down, mdown>>
    /\ Push(step, [prev |-> Probe(tp)])
Set(p) == SetTp(p, 0, [op |-> "g_set_tp", to |-> p])
Restore(i) == SetTp(saved[i], i, [op |-> "g_restore_tp", saved |-> i])
\* a tracer belongs to the provider it was obtained from, for good
Obtain(how, sc, i) ==
    /\ how = "name" => Plain(sc)
    /\ Len(tracers) < MaxHandles
    /\ tracers' = Append(tracers, [by |-> IF how = "saved" THEN saved[i] ELSE tp, sc |-> sc])
    /\ UNCHANGED <<tp, saved, mp, held, meters, prop, down, mdown>>
    /\ Push([op |-> "g_tracer", how |-> how, sc |-> sc, saved |-> i], Done)
\* spans within each other: who records them, and as whose children
Name(i) == "s" \o ToString(i)
RECURSIVE Spans(_, _, _)
Spans(stack, i, parent) ==
    IF i > Len(stack) THEN <<>>
    ELSE LET t == tracers[stack[i]] IN
         IF t.by = 0 THEN Spans(stack, i + 1, parent)
         ELSE IF t.by \in down THEN Spans(stack, i + 1, "")
         ELSE Append(Spans(stack, i + 1, Name(i)), [by |-> t.by, name |-> Name(i), sc |-> t.sc, parent |-> parent, attrs |-> 1])
Nest(stack) ==
    /\ UNCHANGED <<tp, saved, tracers, mp, held, meters, prop, down, mdown>>
    /\ Push([op |-> "g_nest", stack |-> stack], [spans |-> Spans(stack, 1, "")])

(*---- meter providers ----*)
SetMp(p) == /\ mp' = p /\ UNCHANGED <<tp, saved, tracers, held, meters, prop, down, mdown>> /\ Push([op |-> "g_set_mp", to |-> p], Done)
Hold == /\ Len(held) < MaxHandles
        /\ held' = Append(held, mp) /\ UNCHANGED <<tp, saved, tracers, mp, meters, prop, down, mdown>> /\ Push([op |-> "g_hold_mp"], Done)
RestoreMp(i) == /\ mp' = held[i] /\ UNCHANGED <<tp, saved, tracers, held, meters, prop, down, mdown>> /\ Push([op |-> "g_restore_mp", held |-> i], Done)
ObtainM(how, sc, i) ==
    /\ how = "name" => Plain(sc)
    /\ Len(meters) < MaxHandles
    /\ meters' = Append(meters, [by |-> IF how = "held" THEN held[i] ELSE mp, sc |-> sc])
    /\ UNCHANGED <<tp, saved, tracers, mp, held, prop, down, mdown>>
    /\ Push([op |-> "g_meter", how |-> how, sc |-> sc, held |-> i], Done)
Count(h, with, v) ==
    LET m == meters[h] IN
    /\ UNCHANGED <<tp, saved, tracers, mp, held, meters, prop, down, mdown>>
    /\ Push([op |-> "g_count", h |-> h, with |-> with, by |-> v],
            [counts |-> IF m.by = 0 \/ m.by \in mdown THEN <<>> ELSE <<[by |-> m.by, sc |-> m.sc, name |-> with, value |-> v]>>])
Down(k, of) ==
    /\ down' = IF of = "tracers" THEN down \cup {k} ELSE down
    /\ mdown' = IF of = "tracers" THEN mdown ELSE mdown \cup {k}
    /\ UNCHANGED <<tp, saved, tracers, mp, held, meters, prop>>
    /\ Push([op |-> "g_down", k |-> k, of |-> of], Done)

(*---- propagators ----*)
Props == {"noop", "tc", "bag", "b3", "both"}
SetProp(p) == /\ prop' = p /\ UNCHANGED <<tp, saved, tracers, mp, held, meters, down, mdown>> /\ Push([op |-> "g_set_prop", to |-> p], Done)
TC == <<"traceparent", "tracestate">>
Fields(p) == CASE p = "noop" -> <<>> [] p = "tc" -> TC [] p = "bag" -> <<"baggage">> [] p = "both" -> <<"baggage">> \o TC
               [] OTHER -> <<"x-b3-flags", "x-b3-sampled", "x-b3-spanid", "x-b3-traceid">>
Writes(p) == CASE p = "b3" -> <<"x-b3-sampled", "x-b3-spanid", "x-b3-traceid">> [] OTHER -> Fields(p)
Carry ==
    /\ UNCHANGED <<tp, saved, tracers, mp, held, meters, prop, down, mdown>>
    /\ Push([op |-> "g_carry"],
            [set |-> Writes(prop), fields |-> Fields(prop), span |-> CASE prop \in {"tc", "both"} -> 6 [] prop = "b3" -> 7 [] OTHER -> 0,
             baggage |-> IF prop \in {"bag", "both"} THEN 1 ELSE 0])

Init == /\ tp = 0 /\ saved = <<>> /\ tracers = <<>> /\ mp = 0 /\ held = <<>> /\ meters = <<>>
        /\ prop = "noop" /\ down = {} /\ mdown = {} /\ hist = <<>>
Room == Len(hist) < SimLen
H == 1..Len(tracers)
Stacks == {<<a>> : a \in H} \cup {<<a, b>> : a, b \in H}
Traces == /\ Room
          /\ \/ \E p \in Providers : Set(p)
             \/ \E i \in 1..Len(saved) : Restore(i)
             \/ \E sc \in Scopes : Obtain("name", sc, 0) \/ Obtain("scope", sc, 0)
             \/ \E sc \in {CHOOSE x \in Scopes : ~Plain(x)}, i \in 1..Len(saved) : Obtain("saved", sc, i)
             \/ \E s \in Stacks : Nest(s)
Measures == /\ Room
            /\ \/ \E p \in Providers : SetMp(p)
               \/ Hold
               \/ \E i \in 1..Len(held) : RestoreMp(i)
               \/ \E sc \in Scopes : ObtainM("name", sc, 0) \/ ObtainM("scope", sc, 0)
               \/ \E sc \in {CHOOSE x \in Scopes : ~Plain(x)}, i \in 1..Len(held) : ObtainM("held", sc, i)
               \/ \E h \in 1..Len(meters), w \in {"early", "late"} : Count(h, w, 2)
Carriers == Room /\ ((\E p \in Props : SetProp(p)) \/ Carry)
Walk ==
    /\ Room
    /\ \E k \in {OneOf(1..40)} :
       CASE k <= 4 -> Set(OneOf(Providers))
         [] k <= 6 /\ saved # <<>> -> Restore(OneOf(1..Len(saved)))
         [] k <= 12 /\ Len(tracers) < MaxHandles ->
              \E sc \in {OneOf(Scopes)} :
              Obtain(OneOf({"scope", "provider"} \cup (IF Plain(sc) THEN {"name"} ELSE {}) \cup (IF saved = <<>> THEN {} ELSE {"saved"})), sc,
                     IF saved = <<>> THEN 0 ELSE OneOf(1..Len(saved)))
         [] k <= 19 /\ tracers # <<>> -> Nest(TLCEval([i \in 1..OneOf(1..5) |-> OneOf(H)]))
         [] k <= 22 -> SetMp(OneOf(Providers))
         [] k <= 23 /\ Len(held) < MaxHandles -> Hold
         [] k <= 24 /\ held # <<>> -> RestoreMp(OneOf(1..Len(held)))
         [] k <= 29 /\ Len(meters) < MaxHandles ->
              \E sc \in {OneOf(Scopes)} :
              ObtainM(OneOf({"scope", "provider"} \cup (IF Plain(sc) THEN {"name"} ELSE {}) \cup (IF held = <<>> THEN {} ELSE {"held"})), sc,
                      IF held = <<>> THEN 0 ELSE OneOf(1..Len(held)))
         [] k <= 35 /\ meters # <<>> -> Count(OneOf(1..Len(meters)), OneOf({"early", "late"}), OneOf(1..5))
         [] k = 36 /\ OneOf(1..4) = 1 -> Down(OneOf({1, 2}), OneOf({"tracers", "meters"}))
         [] k <= 38 -> SetProp(OneOf(Props))
         [] OTHER -> Carry
\* nothing of a provider that does nothing or is shut down is ever seen
Inv == \A i \in 1..Len(hist) : hist[i].op = "g_nest" => \A j \in 1..Len(hist[i].exp.spans) : hist[i].exp.spans[j].by # 0
EmitT == Emit(hist')
EmitSim == Len(hist') = SimLen => Emit(hist')
Ends == {"g_nest", "g_count", "g_carry"}
EmitEnd == Len(hist') = SimLen /\ hist'[SimLen].op \in Ends => Emit(hist')
=============================================================================
