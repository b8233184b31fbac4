------------------------------- MODULE OtlpMap -------------------------------
(* What OTLP says about telemetry (property O02).  Every span, log record    *)
(* and metric of an export is in the request exactly once, under the         *)
(* resource of its provider and the instrumentation scope it came from, with *)
(* all it holds; the same in protobuf and in JSON.                           *)
(*                                                                           *)
(* Values are written as a letter for their kind and their text.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Cover
CONSTANTS Part,    \* "spans", "logs", "metrics"
          Max,     \* largest batch
          Few,     \* batches of more than one take from few variants
          Pick(_), SimLen
VARIABLES hist
vars == <<hist>>

A(k, v) == [k |-> k, v |-> v]
(* What a value is on the wire: an empty list has no kind *)
Wire(v) == IF v \in {"S:", "I:", "B:", "D:"} THEN "L:" ELSE v
WireAll(as) == [i \in 1..Len(as) |-> A(as[i].k, Wire(as[i].v))]
AttrLists == {<<>>, <<A("s", "s:x"), A("i", "i:-5"), A("b", "b:true"), A("d", "d:15")>>,
              <<A("S", "S:x,y"), A("I", "I:1,-2"), A("B", "B:true,false"), A("D", "D:5,25")>>,
              <<A("s", "s:"), A("S", "S:"), A("I", "I:"), A("i", "i:0"), A("b", "b:false"), A("d", "d:0")>>,
              <<A("z", "i:2147483647"), A("a", "s:2"), A("", "s:q\"\\u")>>, <<A("big", "i:-9007199254740993"), A("f", "d:-25")>>}

Scope(n, v, as, u) == [name |-> n, version |-> v, attrs |-> as, schema |-> u]
Scopes == {Scope("lib", "", <<>>, ""), Scope("lib", "1.0", <<>>, ""), Scope("lib", "2.0", <<>>, ""), Scope("other", "1.0", <<>>, ""),
           Scope("lib", "", <<A("s", "s:x"), A("i", "i:1")>>, ""), Scope("lib", "", <<>>, "http://scope/1"), Scope("", "", <<>>, ""),
           Scope("lib", "1.0", <<A("s", "s:y")>>, "http://scope/2")}
Resources == {[attrs |-> <<>>, schema |-> ""], [attrs |-> <<A("service.name", "s:svc"), A("I", "I:1,2")>>, schema |-> ""],
              [attrs |-> <<A("service.name", "s:svc")>>, schema |-> "http://res/1"]}
WireScope(s) == [name |-> s.name, version |-> s.version, attrs |-> WireAll(s.attrs)]

(*---- spans ----*)
T1 == "0102030405060708090a0b0c0d0e0f10"
T2 == "000000000000000000000000000000ff"
S1 == "0102030405060708"
S2 == "00000000000000ff"
Event(n, t, as, d) == [name |-> n, time |-> t, attrs |-> as, dropped |-> d]
Link(t, s, f, st, as, d) == [tid |-> t, sid |-> s, flags |-> f, state |-> st, attrs |-> as, dropped |-> d]
Span0 == [tid |-> T1, sid |-> S1, parent |-> "", flags |-> 1, state |-> "", name |-> "op", kind |-> "internal", start |-> 1, end |-> 2,
          attrs |-> <<>>, dropped |-> 0, events |-> <<>>, edropped |-> 0, links |-> <<>>, ldropped |-> 0, status |-> "unset", message |-> ""]
E1 == Event("e1", 5, <<A("s", "s:x")>>, 0)
E2 == Event("", 4, <<>>, 7)
L1 == Link(T2, S2, 1, "a=1,b=2", <<A("i", "i:1"), A("S", "S:")>>, 3)
L2 == Link(T1, S1, 0, "", <<>>, 0)
SpanVariants == {Span0}
  \cup {[Span0 EXCEPT !.kind = k] : k \in {"client", "server", "producer", "consumer"}}
  \cup {[Span0 EXCEPT !.status = "ok"], [Span0 EXCEPT !.status = "error", !.message = "bad"], [Span0 EXCEPT !.status = "error"]}
  \cup {[Span0 EXCEPT !.attrs = as, !.dropped = Len(as)] : as \in AttrLists}
  \cup {[Span0 EXCEPT !.parent = S2, !.flags = 0], [Span0 EXCEPT !.tid = T2, !.sid = S2, !.parent = S1, !.flags = 3, !.state = "k=v,l=w"],
        [Span0 EXCEPT !.events = <<E1, E2>>, !.edropped = 9], [Span0 EXCEPT !.events = <<E2, E1, E1>>], [Span0 EXCEPT !.links = <<L1, L2>>],
        [Span0 EXCEPT !.links = <<L2>>, !.ldropped = 11], [Span0 EXCEPT !.start = 1000000001, !.end = 2000000003],
        [Span0 EXCEPT !.name = ""], [Span0 EXCEPT !.edropped = 1, !.dropped = 2, !.ldropped = 3]}
FewSpans == {Span0, [Span0 EXCEPT !.parent = S2, !.flags = 0, !.events = <<E1>>, !.kind = "server", !.status = "ok"]}
WireSpan(x) == [x EXCEPT !.attrs = WireAll(@), !.events = [i \in 1..Len(@) |-> [@[i] EXCEPT !.attrs = WireAll(@)]],
                         !.links = [i \in 1..Len(@) |-> [@[i] EXCEPT !.attrs = WireAll(@)]]]

(*---- log records ----*)
Log0 == [time |-> 0, obs |-> 3, sev |-> 0, text |-> "", body |-> "-", attrs |-> <<>>, event |-> "", target |-> "-", tid |-> "", sid |-> "", flags |-> -1]
Bodies == {"s:hello", "s:", "i:-7", "d:25", "b:false", "y:00ff10", "L:s:a;i:2", "L:", "M:k=s:v", "M:"}
LogVariants == {Log0}
  \cup {[Log0 EXCEPT !.sev = k] : k \in 1..24} \cup {[Log0 EXCEPT !.body = x] : x \in Bodies}
  \cup {[Log0 EXCEPT !.attrs = <<A("one", x), A("two", "i:2")>>] : x \in Bodies}
  \cup {[Log0 EXCEPT !.time = 77], [Log0 EXCEPT !.time = 1000000007, !.obs = 2000000001], [Log0 EXCEPT !.text = "WARN"], [Log0 EXCEPT !.event = "ev"],
        [Log0 EXCEPT !.target = "tgt"], [Log0 EXCEPT !.tid = T1, !.sid = S1, !.flags = 1], [Log0 EXCEPT !.tid = T2, !.sid = S2, !.flags = 0],
        [Log0 EXCEPT !.tid = T2, !.sid = S2], [Log0 EXCEPT !.tid = T1, !.sid = S1, !.flags = 1, !.body = "s:b", !.sev = 9, !.text = "INFO", !.time = 5,
        !.attrs = <<A("a", "i:1"), A("b", "s:2"), A("a", "i:3"), A("c", "L:"), A("d", "b:true"), A("e", "s:6"), A("f", "d:5")>>, !.event = "all"]}
FewLogs == {[Log0 EXCEPT !.body = "s:one"], [Log0 EXCEPT !.body = "s:two", !.target = "lib"], [Log0 EXCEPT !.target = "tgt", !.sev = 17]}
WireLog(x) == [x EXCEPT !.flags = IF @ < 0 THEN 0 ELSE @]
\* a target stands in for the scope: what the scope says besides its schema is left out
LogScope(s, x) == IF x.target = "-" THEN WireScope(s) ELSE [name |-> x.target, version |-> "", attrs |-> <<>>]
LogFields(x) == [k \in (DOMAIN x \ {"target"}) |-> WireLog(x)[k]]

(*---- metrics ----*)
P(a, ms) == [a |-> a, ms |-> ms]      \* a point: its attribute, the measurements
Kinds == {"counter", "fcounter", "updown", "gauge", "fgauge", "hist", "fhist", "expo", "ocounter", "oupdown", "ogauge"}
PointLists(k) == {<<P("x", <<4>>)>>, <<P("x", <<1, 8>>), P("y", <<2>>)>>, <<P("", <<2, 2, 4>>), P("x", <<1>>)>>, <<P("x", <<1, 0, 8, 1>>)>>}
  \cup (IF k \in {"updown", "gauge", "fgauge"} THEN {<<P("x", <<-4>>)>>, <<P("x", <<5, -8>>)>>} ELSE IF k = "expo" THEN {<<P("x", <<-4, 2, -1, 0>>)>>} ELSE {})
Insts == UNION {{[kind |-> k, temp |-> t, desc |-> d, pts |-> ps] : t \in {"cumulative", "delta"}, d \in {"", "text"}, ps \in PointLists(k)} : k \in Kinds}
FewInsts == {[kind |-> k, temp |-> "delta", desc |-> "", pts |-> <<P("x", <<4>>)>>] : k \in {"counter", "fhist"}}
RECURSIVE Total(_), Least(_), Most(_)
Total(ms) == IF ms = <<>> THEN 0 ELSE ms[1] + Total(Tail(ms))
Least(ms) == IF Len(ms) = 1 THEN ms[1] ELSE IF ms[1] < Least(Tail(ms)) THEN ms[1] ELSE Least(Tail(ms))
Most(ms) == IF Len(ms) = 1 THEN ms[1] ELSE IF ms[1] > Most(Tail(ms)) THEN ms[1] ELSE Most(Tail(ms))
Occurs(ms, S) == Cardinality({i \in 1..Len(ms) : ms[i] \in S})
Float(k) == k \in {"fcounter", "fgauge", "fhist", "expo"}
Num(k, v) == (IF Float(k) THEN "d:" ELSE "i:") \o ToString(IF Float(k) THEN v * 10 ELSE v)
Dbl(v) == "d:" \o ToString(v * 10)
Log2(v) == CASE v \in {1, -1} -> -1 [] v \in {2, -2} -> 0 [] v \in {4, -4} -> 1 [] OTHER -> 2   \* bucket of a power of two at scale 0
Buckets(ms, S) == LET b == {Log2(ms[i]) : i \in {j \in 1..Len(ms) : ms[j] \in S}} IN
  IF b = {} THEN [offset |-> 0, counts |-> <<>>]
  ELSE LET lo == CHOOSE x \in b : \A y \in b : x <= y  hi == CHOOSE x \in b : \A y \in b : y <= x
       IN [offset |-> lo, counts |-> [i \in 1..(hi - lo + 1) |-> Cardinality({j \in 1..Len(ms) : ms[j] \in S /\ Log2(ms[j]) = lo + i - 1})]]
Monotonic == {"counter", "fcounter", "ocounter"}
Data(k) == CASE k \in {"gauge", "fgauge", "ogauge"} -> "gauge" [] k \in {"hist", "fhist"} -> "histogram" [] k = "expo" -> "exponential" [] OTHER -> "sum"
\* a histogram has the bounds 1 and 5
WirePoint(k, p) ==
  LET ms == p.ms  at == IF p.a = "" THEN <<>> ELSE <<A("at", "s:" \o p.a)>> IN
  CASE Data(k) = "gauge" -> [attrs |-> at, value |-> Num(k, ms[Len(ms)])]
    [] Data(k) = "sum" -> [attrs |-> at, value |-> Num(k, IF k \in {"ocounter", "oupdown"} THEN ms[Len(ms)] ELSE Total(ms))]
    [] Data(k) = "histogram" -> [attrs |-> at, count |-> Len(ms), sum |-> Dbl(Total(ms)), min |-> Dbl(Least(ms)), max |-> Dbl(Most(ms)),
         bounds |-> <<Dbl(1), Dbl(5)>>, counts |-> <<Occurs(ms, {0, 1}), Occurs(ms, 2..5), Occurs(ms, 6..9)>>]
    [] OTHER -> [attrs |-> at, count |-> Len(ms), sum |-> Dbl(Total(ms)), min |-> Dbl(Least(ms)), max |-> Dbl(Most(ms)), scale |-> 0,
         zero |-> Occurs(ms, {0}), pos |-> Buckets(ms, 1..9), neg |-> Buckets(ms, (-9)..(-1))]
WireMetric(x, i) ==
  [name |-> "m" \o ToString(i), desc |-> x.desc, unit |-> IF x.desc = "" THEN "" ELSE "By", data |-> Data(x.kind),
   temp |-> IF Data(x.kind) = "gauge" THEN "" ELSE IF x.kind \in {"updown", "oupdown"} THEN "cumulative" ELSE x.temp, mono |-> Data(x.kind) = "sum" /\ x.kind \in Monotonic,
   pts |-> [j \in 1..Len(x.pts) |-> WirePoint(x.kind, x.pts[j])]]

(*---- requests ----*)
\* one entry for each item: where it is and what it is
Under(sc, u, r) == [scope |-> sc, schema |-> u, rec |-> r]
WireItem(it, i) == CASE Part = "spans" -> Under(WireScope(it.sc), it.sc.schema, WireSpan(it.x))
                     [] Part = "logs" -> Under(LogScope(it.sc, it.x), it.sc.schema, LogFields(it.x))
                     [] OTHER -> Under(WireScope(it.sc), it.sc.schema, WireMetric(it.x, i))
Expect(res, items) == [resource |-> WireAll(res.attrs), schema |-> res.schema, items |-> [i \in 1..Len(items) |-> WireItem(items[i], i)]]
Variants == CASE Part = "spans" -> SpanVariants [] Part = "logs" -> LogVariants [] OTHER -> Insts
Some == CASE Part = "spans" -> FewSpans [] Part = "logs" -> FewLogs [] OTHER -> FewInsts
Item(s, x) == [sc |-> s, x |-> x]
Go(res, items) == \E p \in {"binary", "json"} :
  hist' = <<[op |-> "otlp_map", sig |-> Part, p |-> p, resource |-> res, items |-> items, exp |-> Expect(res, items)]>>
Init == hist = <<>>
PlainScope == Scope("lib", "1.0", <<A("s", "s:y")>>, "http://scope/2")
Next == hist = <<>> /\
  \/ \E res \in Resources : Go(res, <<>>)
  \/ \E res \in Resources, x \in Variants : Go(res, <<Item(PlainScope, x)>>)
  \/ \E res \in Resources, s \in Scopes, x \in Some : Go(res, <<Item(s, x)>>)
  \/ Max >= 2 /\ \E res \in Resources, s \in Scopes, t \in Scopes, x \in Some, y \in Some : Go(res, <<Item(s, x), Item(t, y)>>)
  \/ Max >= 3 /\ \E s \in Scopes, t \in Scopes, u \in Scopes, x \in Some, y \in Some : Go([attrs |-> <<>>, schema |-> "http://res/1"], <<Item(s, x), Item(t, y), Item(u, x)>>)
OneOf(S) == RandomElement(S)
NextSim == hist = <<>> /\ \E n \in {OneOf(2..6)} : \E res \in {OneOf(Resources)} :
  \E items \in {TLCEval([i \in 1..n |-> Item(OneOf(Scopes), OneOf(IF OneOf({0, 1}) = 0 THEN Some ELSE Variants))])} :
    Go(res, IF Part = "metrics" THEN [i \in 1..n |-> [items[i] EXCEPT !.x.temp = items[1].x.temp]] ELSE items)
(* Nothing is lost and nothing is added; scopes that differ stay apart *)
Inv == hist # <<>> => LET h == hist[1] IN
  /\ Len(h.exp.items) = Len(h.items)
  /\ \A i \in 1..Len(h.items) : \A j \in 1..Len(h.items) :
       (Part # "logs" /\ h.items[i].sc.version # h.items[j].sc.version) => h.exp.items[i].scope # h.exp.items[j].scope
EmitT == Emit(hist')
=============================================================================
