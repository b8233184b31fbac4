------------------------------- MODULE Carriers -------------------------------
(* The carriers of propagation (property P07): a map of HTTP headers and a    *)
(* map of strings, as an injector writes them and an extractor reads them.    *)
(* In texts ~ stands for a character outside ASCII, ^ for a line feed and `   *)
(* for a tab.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Cover
CONSTANTS SimLen
VARIABLES kind, store, hist      \* store: name -> its values, in order
vars == <<kind, store, hist>>
\* [as written, in lower case, a name HTTP has]
K(t, l, ok) == [t |-> t, l |-> l, ok |-> ok]
Keys == {K("traceparent", "traceparent", TRUE), K("TraceParent", "traceparent", TRUE), K("X-B3-TraceId", "x-b3-traceid", TRUE), K("x-b3-traceid", "x-b3-traceid", TRUE),
         K("a_b.c!#", "a_b.c!#", TRUE), K("", "", FALSE), K("a b", "a b", FALSE), K("a:b", "a:b", FALSE), K("k~", "k~", FALSE), K("^", "^", FALSE)}
\* [text, may be sent in a header, may be read from one]
V(t, ok, ascii) == [t |-> t, ok |-> ok, ascii |-> ascii]
Values == {V("v", TRUE, TRUE), V("w=1; x,y", TRUE, TRUE), V("", TRUE, TRUE), V(" a ", TRUE, TRUE), V("a`b", TRUE, TRUE), V("a~", TRUE, FALSE), V("a^b", FALSE, FALSE), V("^", FALSE, FALSE)}
Empty == [k \in {} |-> <<>>]
Put(l, vs) == [k \in DOMAIN store \cup {l} |-> IF k = l THEN vs ELSE store[k]]
Of(st, k) == IF k.l \notin DOMAIN st THEN "<none>" ELSE LET v == Head(st[k.l]) IN IF kind = "http" /\ ~v.ascii THEN "<none>" ELSE v.t
\* names in the order of their characters, as far as they occur here
Order == <<"", "^", "a b", "a:b", "a_b.c!#", "k~", "traceparent", "x-b3-traceid">>
Names == <<"", "^", "a b", "a:b", "a_b.c!#", "k~", "traceparent", "TRACEPARENT", "x-b3-traceid", "X-b3-Traceid", "other">>
KeyOf(t) == CASE t = "TRACEPARENT" -> K(t, "traceparent", TRUE) [] t = "X-b3-Traceid" -> K(t, "x-b3-traceid", TRUE) [] OTHER -> K(t, t, TRUE)
Held(st) == SelectSeq(Order, LAMBDA k : k \in DOMAIN st)
Seen(st) == [keys |-> Held(st), got |-> [i \in 1..Len(Names) |-> Of(st, KeyOf(Names[i]))]]
Do(st, step) == store' = st /\ hist' = Append(hist, step @@ [names |-> Names, exp |-> Seen(st)])
\* what cannot be a header changes nothing
Set(k, v) ==
    LET fits == kind = "map" \/ (k.ok /\ v.ok) IN
    /\ UNCHANGED kind
    /\ Do(IF fits THEN Put(k.l, <<v>>) ELSE store, [op |-> "ca_set", key |-> k.t, value |-> v.t])
\* headers may come with several values for a name: the first is read
Wire(k, v) ==
    /\ kind = "http" /\ k.ok /\ v.ok /\ UNCHANGED kind
    /\ Do(Put(k.l, (IF k.l \in DOMAIN store THEN store[k.l] ELSE <<>>) \o <<v>>), [op |-> "ca_wire", key |-> k.t, value |-> v.t])
\* what a propagator writes into a carrier it reads from it
States == {"", "a=1", "a=1,b=x y", "t@v=!\"#$%&'()*"}
Bags == {<<>>, <<[k |-> "k", v |-> "v"]>>, <<[k |-> "a", v |-> "x y,z;=\"\\"], [k |-> "b", v |-> "~^`%"]>>, <<[k |-> "a!#$", v |-> ""]>>}
Props == {"tc", "bag", "b3", "b3m", "jaeger"}
Carry(p, f, sid, ts, bag) ==
    /\ UNCHANGED <<kind, store>>
    /\ hist' = Append(hist, [op |-> "ca_carry", p |-> p, flags |-> f, sid |-> sid, state |-> ts, bag |-> bag,
         exp |-> [span |-> p # "bag", state |-> IF p = "tc" THEN ts ELSE "", named |-> TRUE,
                  bag |-> IF p = "bag" THEN [i \in 1..Len(bag) |-> <<bag[i].k, bag[i].v>>] ELSE <<>>]])
Init == /\ kind \in {"http", "map"} /\ store = Empty
        /\ hist = <<[op |-> "ca_new", kind |-> kind, names |-> Names, exp |-> Seen(Empty)]>>
OneOf(S) == RandomElement(S)
L == Len(hist)
Few == {k \in Keys : k.t \in {"traceparent", "TraceParent", "a b", "a_b.c!#"}}
FewV == {v \in Values : v.t \in {"v", "a~", "a^b", ""}}
Edits == \/ L = 1 /\ \E k \in Keys, v \in Values : Set(k, v) \/ Wire(k, v)
         \/ L = 2 /\ \E k \in Few, v \in FewV : Set(k, v) \/ Wire(k, v)
Carries == L = 1 /\ \E p \in Props, f \in {0, 1}, sid \in {1, 1000000}, ts \in States, bag \in Bags : Carry(p, f, sid, ts, bag)
Walk == /\ L < SimLen
        /\ \E k \in {OneOf(Keys)}, v \in {OneOf(Values)} : IF k.ok /\ v.ok /\ kind = "http" /\ OneOf(1..3) = 1 THEN Wire(k, v) ELSE Set(k, v)
\* a header never holds what HTTP forbids
Inv == kind = "http" => \A k \in DOMAIN store : store[k] # <<>> /\ \A i \in 1..Len(store[k]) : store[k][i].ok
EmitT == Emit(hist')
EmitSim == Len(hist') = SimLen => Emit(hist')
=============================================================================
