-------------------------------- MODULE Zipkin --------------------------------
(* The Zipkin exporter (property Z01): where it sends, what it says about     *)
(* each span, and when it says that an export succeeded.  A Zipkin span is    *)
(* written as the set of its leaves, each a path and a value with its kind    *)
(* ("s" text, "n" number).                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Cover
CONSTANTS SimLen
VARIABLES conf, hist
vars == <<conf, hist>>
NotSet == "<unset>"
Push(step) == hist' = Append(hist, step)

(*---- configuration ----*)
U(t, url) == [t |-> t, url |-> url]          \* url = "": not an address
Default == "http://127.0.0.1:9411/api/v2/spans"
InCode == {U(NotSet, ""), U("http://code:1/x", "http://code:1/x"), U("-*/*-/*-//-/-/invalid-uri", ""), U("", ""), U("https://code/", "https://code/")}
InEnv == {U(NotSet, ""), U("", ""), U("http://env:2/y/z?q=1", "http://env:2/y/z?q=1"), U("-*/*-/*-//-/-/invalid-uri", "")}
Url(c, e) == IF c.t # NotSet THEN c.url ELSE IF e.t \notin {NotSet, ""} THEN e.url ELSE Default
Addrs == {[t |-> "", leaves |-> {}],
          [t |-> "10.0.0.7:8080", leaves |-> {"localEndpoint.ipv4=s:10.0.0.7", "localEndpoint.port=n:8080"}],
          [t |-> "[2001:db8::1]:443", leaves |-> {"localEndpoint.ipv6=s:2001:db8::1", "localEndpoint.port=n:443"}]}
Services == {NotSet, "svc", ""}
NoExporter == [up |-> FALSE, url |-> "", local |-> {}]
Build(c, e, a, client) ==
    LET up == client /\ Url(c, e) # "" IN
    /\ conf' = IF up THEN [up |-> TRUE, url |-> Url(c, e), local |-> a.leaves] ELSE NoExporter
    /\ Push([op |-> "zk_build", code |-> c.t, env |-> e.t, addr |-> a.t, client |-> client, exp |-> [built |-> up]])
\* the resource of the provider names the service
Named == \E s \in Services : "localEndpoint.serviceName=s:" \o s \in conf.local
Resource(s) ==
    /\ conf.up /\ ~Named
    /\ conf' = [conf EXCEPT !.local = @ \cup (IF s = NotSet THEN {} ELSE {"localEndpoint.serviceName=s:" \o s})]
    /\ Push([op |-> "zk_resource", service |-> s, exp |-> [ok |-> TRUE]])

(*---- spans ----*)
\* [key, value as written for the harness, value as text]
A(k, v, t) == [k |-> k, v |-> v, t |-> t]
AttrLists == {<<>>, <<A("s", "s:x y", "x y"), A("i", "i:-5", "-5"), A("b", "b:true", "true"), A("d", "d:15", "1.5")>>,
              <<A("S", "S:x,y", "[\"x\",\"y\"]"), A("I", "I:1,-2", "[1,-2]"), A("B", "B:true,false", "[true,false]"), A("D", "D:5,25", "[0.5,2.5]")>>,
              <<A("e", "s:", ""), A("E", "S:", "[]"), A("q", "s:q\"\\u", "q\"\\u")>>, <<A("big", "i:-9007199254740993", "-9007199254740993")>>,
              <<A("k", "i:1", "1"), A("k", "i:2", "2")>>,
              <<A("error", "b:true", "true"), A("x", "i:1", "1")>>, <<A("otel.status_code", "s:mine", "mine")>>, <<A("otel.library.name", "s:mine", "mine")>>}
KindAttr == <<A("span.kind", "s:custom", "custom")>>
T1 == "0102030405060708090a0b0c0d0e0f10"
T2 == "000000000000000000000000000000ff"
S1 == "0102030405060708"
S2 == "00000000000000ff"
Event(n, t, m) == [name |-> n, time |-> t, micros |-> m, attrs |-> <<>>, dropped |-> 0]
E1 == Event("e1", 5999, 5)
E2 == Event("", 4000, 4)
E3 == Event("e1", 0, 0)
Span0 == [tid |-> T1, sid |-> S1, parent |-> "", flags |-> 1, state |-> "", name |-> "op", kind |-> "internal", start |-> 1000, end |-> 2000,
          attrs |-> <<>>, dropped |-> 0, events |-> <<>>, edropped |-> 0, links |-> <<>>, ldropped |-> 0, status |-> "unset", message |-> ""]
Kinds == {"internal", "client", "server", "producer", "consumer"}
Statuses == {<<"unset", "">>, <<"ok", "">>, <<"error", "bad">>, <<"error", "">>}
SpanVariants == {[Span0 EXCEPT !.kind = k, !.status = s[1], !.message = s[2], !.attrs = a] : k \in Kinds, s \in Statuses, a \in AttrLists \cup {KindAttr}}
  \cup {[Span0 EXCEPT !.parent = p, !.tid = t, !.sid = i, !.flags = f] : p \in {"", S1, S2}, t \in {T1, T2}, i \in {S1, S2}, f \in {0, 1}}
  \cup {[Span0 EXCEPT !.start = b, !.end = e] : b \in {0, 999, 1000, 1999, 1000000001}, e \in {0, 999, 1000, 2998, 2000000000}}
  \cup {[Span0 EXCEPT !.events = e, !.edropped = 1] : e \in {<<E1>>, <<E1, E2>>, <<E2, E1, E3>>, <<E1, E1>>}}
  \cup {[Span0 EXCEPT !.name = n] : n \in {"", "GET /x?y=\"z\""}}
Few == {Span0, [Span0 EXCEPT !.tid = T2, !.kind = "client", !.parent = S2, !.events = <<E1>>, !.attrs = <<A("k", "i:2", "2")>>, !.status = "error", !.message = "bad"],
        [Span0 EXCEPT !.sid = S2, !.attrs = KindAttr, !.status = "ok"]}
Scope(n, v) == [name |-> n, version |-> v, attrs |-> <<>>, schema |-> ""]
Scopes == {Scope("lib", ""), Scope("lib", "1.0"), Scope("", "")}
\* tags: the last value of a key; what the exporter itself says overrides
LastOf(as, k) == LET is == {i \in 1..Len(as) : as[i].k = k} IN as[CHOOSE i \in is : \A j \in is : j <= i].t
Said(sc, x) == [k \in {"otel.library.name"} |-> sc.name]
               @@ (IF sc.version = "" THEN <<>> ELSE [k \in {"otel.library.version"} |-> sc.version])
               @@ (CASE x.status = "unset" -> <<>>
                     [] x.status = "ok" -> [k \in {"otel.status_code"} |-> "OK"]
                     [] OTHER -> [k \in {"otel.status_code", "error"} |-> IF k = "error" THEN x.message ELSE "ERROR"])
\* an attribute named "error" never stands for the status
Own(as) == LET ks == {as[i].k : i \in 1..Len(as)} \ {"error"} IN [k \in ks |-> LastOf(as, k)]
Tags(sc, x) == Said(sc, x) @@ Own(x.attrs)
Kind(x) == CASE x.kind = "client" -> {"kind=s:CLIENT"} [] x.kind = "server" -> {"kind=s:SERVER"} [] x.kind = "producer" -> {"kind=s:PRODUCER"}
             [] x.kind = "consumer" -> {"kind=s:CONSUMER"} [] OTHER -> {}
Custom(x) == \E i \in 1..Len(x.attrs) : x.attrs[i].k = "span.kind"
N(v) == "n:" \o ToString(v)
Leaves(sc, x) ==
    {"traceId=s:" \o x.tid, "id=s:" \o x.sid, "name=s:" \o x.name, "debug=b:false", "shared=b:false",
     "timestamp=" \o N(x.start \div 1000), "duration=" \o N(IF x.end > x.start THEN (x.end - x.start) \div 1000 ELSE 0)}
    \cup (IF x.parent = "" THEN {} ELSE {"parentId=s:" \o x.parent})
    \cup (IF Custom(x) THEN {} ELSE Kind(x))
    \cup conf.local
    \cup {"tags." \o k \o "=s:" \o Tags(sc, x)[k] : k \in DOMAIN Tags(sc, x)}
    \cup UNION {{"annotations." \o ToString(i) \o ".timestamp=" \o N(x.events[i].micros), "annotations." \o ToString(i) \o ".value=s:" \o x.events[i].name} : i \in 1..Len(x.events)}
Item(s, x) == [sc |-> s, x |-> x]

(*---- exports ----*)
Answers == {"200", "202", "204", "100", "302", "400", "404", "429", "500", "503", "lost"}
Export(items, answer) ==
    /\ conf.up /\ UNCHANGED conf
    /\ Push([op |-> "zk_export", items |-> items, answer |-> answer, want |-> [i \in 1..Len(items) |-> Leaves(items[i].sc, items[i].x)],
             exp |-> [ok |-> answer \in {"200", "202", "204"}, sent |-> 1, method |-> "POST", url |-> conf.url, ctype |-> "application/json", spans |-> "as wanted"]])

Init == conf = NoExporter /\ hist = <<>>
OneOf(S) == RandomElement(S)
Plain == Build(U("http://code:1/x", "http://code:1/x"), U(NotSet, ""), [t |-> "", leaves |-> {}], TRUE)
Batches == {<<>>} \cup {<<Item(Scope("lib", "1.0"), x)>> : x \in SpanVariants} \cup {<<Item(s, x)>> : s \in Scopes, x \in Few}
           \cup {<<Item(s, x), Item(t, y)>> : s, t \in Scopes, x, y \in Few}
Config == \/ Len(hist) = 0 /\ \E c \in InCode, e \in InEnv, a \in Addrs, k \in BOOLEAN : Build(c, e, a, k)
          \/ Len(hist) = 1 /\ \E s \in Services : Resource(s)
          \/ Len(hist) = 2 /\ Export(<<Item(Scope("lib", "1.0"), Span0)>>, "200")
Map == \/ Len(hist) = 0 /\ Plain
       \/ Len(hist) = 1 /\ \E b \in Batches : Export(b, "200")
Life == \/ Len(hist) = 0 /\ Plain
        \/ Len(hist) \in 1..3 /\ \E a \in Answers : Export(<<Item(Scope("lib", "1.0"), Span0)>>, a)
Walk == /\ Len(hist) < SimLen
        /\ IF Len(hist) = 0 THEN Build(OneOf(InCode \ {U("-*/*-/*-//-/-/invalid-uri", ""), U("", "")}), OneOf(InEnv \ {U("-*/*-/*-//-/-/invalid-uri", "")}), OneOf(Addrs), TRUE)
           ELSE IF ~Named /\ OneOf(1..4) = 1 THEN Resource(OneOf(Services))
           ELSE LET n == OneOf(0..5) IN Export(TLCEval([i \in 1..n |-> Item(OneOf(Scopes), OneOf(SpanVariants))]), OneOf(Answers))
\* every span sent says which service and library it is from, once
Inv == \A i \in 1..Len(hist) : hist[i].op = "zk_export" =>
         \A j \in 1..Len(hist[i].items) : "tags.otel.library.name=s:" \o hist[i].items[j].sc.name \in hist[i].want[j]
EmitT == Emit(hist')
EmitSim == Len(hist') = SimLen => Emit(hist')
=============================================================================
