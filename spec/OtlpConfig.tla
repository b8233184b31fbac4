----------------------------- MODULE OtlpConfig -----------------------------
(* What an OTLP/HTTP exporter is built to send (property O01): the address,  *)
(* the headers, the encoding and the time it allows, from what is set in     *)
(* code, in the variable of the signal, in the general variable, and the     *)
(* defaults, in that order.  An empty value counts as not set; one that does *)
(* not parse is ignored, except for an address given in code, which is an    *)
(* error.                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Cover
CONSTANTS Part,      \* which family of settings
          MaxList    \* members of a header variable
VARIABLES hist
vars == <<hist>>
Signals == {"traces", "logs", "metrics"}
Protocols == {"binary", "json", "grpc"}
NotSet == "<unset>"
NoEnv == [se |-> NotSet, ge |-> NotSet, sh |-> NotSet, gh |-> NotSet, st |-> NotSet, gt |-> NotSet]
Plain == [e |-> NotSet, h |-> <<>>, t |-> 0, p |-> "binary"]
Ctype(p) == IF p = "json" THEN "application/json" ELSE "application/x-protobuf"
DefaultUrl(sig) == "http://localhost:4318/v1/" \o sig

(*---- address ----*)
\* [text, what it means on its own, with the path of a signal appended ("": nothing)]
A(t, own, base) == [t |-> t, own |-> own, base |-> base]
Nothing == {A(NotSet, "", ""), A("", "", "")}
Junk == A("-*/*-/*-//-/-/invalid-uri", "", "")
Addr(h) == {A("http://" \o h, "", "http://" \o h \o "/v1/"), A("http://" \o h \o "/", "http://" \o h \o "/", "http://" \o h \o "/v1/"),
            A("https://" \o h \o "/x/y", "https://" \o h \o "/x/y", "https://" \o h \o "/x/y/v1/"),
            A("http://" \o h \o "/x/", "http://" \o h \o "/x/", "http://" \o h \o "/x/v1/"),
            A("http://" \o h \o "/v1/traces", "http://" \o h \o "/v1/traces", "http://" \o h \o "/v1/traces/v1/")}
Whole(h) == {a \in Addr(h) : a.own # ""}
Url(sig, c, s, g) == IF c.own # "" THEN c.own ELSE IF s.own # "" THEN s.own
                     ELSE IF g.base # "" THEN g.base \o sig ELSE DefaultUrl(sig)
Expect(built, url, p, hs, t) == [built |-> built, url |-> url, ctype |-> Ctype(p), headers |-> hs, timeout |-> t]
Failed == [built |-> FALSE]
DefaultAgent == [n |-> "user-agent", vs |-> {"DEFAULT"}]
Case(sig, code, env, e) == hist' = <<[op |-> "otlp_cfg", sig |-> sig, code |-> code, env |-> env, exp |-> e]>>

Endpoints == \E sig \in Signals, c \in Nothing \cup {Junk} \cup Whole("code:1"), s \in Nothing \cup {Junk} \cup Whole("sig:2"),
                g \in Nothing \cup {Junk} \cup Addr("gen:3") :
  Case(sig, [Plain EXCEPT !.e = c.t], [NoEnv EXCEPT !.se = s.t, !.ge = g.t],
       IF c = Junk THEN Failed ELSE Expect(TRUE, Url(sig, c, s, g), "binary", {DefaultAgent}, 10000))

(*---- encoding ----*)
Encodings == \E sig \in Signals, p \in Protocols :
  Case(sig, [Plain EXCEPT !.p = p], NoEnv, Expect(TRUE, DefaultUrl(sig), p, {DefaultAgent}, 10000))

(*---- time ----*)
T(t, v) == [t |-> t, v |-> v]
Times(a, b) == {T(NotSet, 0), T("", 0), T("junk", 0), T("-5", 0), T("1.5", 0), T(a, b)}
Timeouts == \E sig \in {"traces", "logs"}, c \in {0, 7001}, s \in Times("250", 250), g \in Times("4321", 4321) :
  Case(sig, [Plain EXCEPT !.t = c], [NoEnv EXCEPT !.st = s.t, !.gt = g.t],
       Expect(TRUE, DefaultUrl(sig), "binary", {DefaultAgent},
              IF c # 0 THEN c ELSE IF s.v # 0 THEN s.v ELSE IF g.v # 0 THEN g.v ELSE 10000))

(*---- headers ----*)
H(t, n, v) == [t |-> t, n |-> n, v |-> v]    \* n = "": ignored
InEnv == {H("k=v1", "k", "v1"), H(" K = v2 ", "k", "v2"), H("k=x=y", "k", "x=y"), H("k", "", ""), H("=v", "", ""), H("k2=", "", ""), H("", "", ""),
          H("e=a%20b%2Cc", "e", "a b,c"), H("e=%zz", "e", "%zz"), H("e=%4", "e", "%4"), H("no name=v", "", ""), H("c=%0A", "", ""),
          H("user-agent=env", "user-agent", "env")}
InCode == {H("k", "k", "c1"), H("K", "k", "c2"), H("e", "e", "a%20b"), H("User-Agent", "user-agent", "mine"), H("user-agent", "user-agent", "MINE"),
           H("no name", "", "v"), H("d", "", "a%0Ab")}
Decoded(h) == IF h.v = "a%20b" THEN "a b" ELSE h.v
Lists == UNION {[1..k -> InEnv] : k \in 1..MaxList}
Text(l) == IF Len(l) = 1 THEN l[1].t ELSE l[1].t \o "," \o l[2].t
None == [set |-> FALSE, l |-> <<>>]
Some(l) == [set |-> TRUE, l |-> l]
RECURSIVE ValueIn(_, _)       \* the last one counts
ValueIn(l, n) == IF l = <<>> THEN NotSet ELSE IF l[Len(l)].n = n THEN Decoded(l[Len(l)]) ELSE ValueIn(SubSeq(l, 1, Len(l) - 1), n)
Names == {"k", "e", "user-agent"}
\* a header set both in code and in the environment: not said here which one wins
Values(c, v, n) == ({ValueIn(c, n), ValueIn(v, n)} \ {NotSet})
HeadersOf(c, v) == {[n |-> n, vs |-> IF Values(c, v, n) = {} THEN {"DEFAULT"} ELSE Values(c, v, n)] :
                    n \in {x \in Names : x = "user-agent" \/ Values(c, v, x) # {}}}
TextOf(x) == IF x.set THEN Text(x.l) ELSE NotSet
IsEmpty(x) == ~x.set \/ Text(x.l) = ""
HeaderCase(sig, code, s, g) ==
  Case(sig, [Plain EXCEPT !.h = [k \in 1..Len(code) |-> [n |-> code[k].t, v |-> code[k].v]]],
       [NoEnv EXCEPT !.sh = TextOf(s), !.gh = TextOf(g)],
       Expect(TRUE, DefaultUrl(sig), "binary", HeadersOf(code, IF IsEmpty(s) THEN g.l ELSE s.l), 10000))
Small == {None, Some(<<H("", "", "")>>), Some(<<H("k=v1", "k", "v1")>>), Some(<<H("e=a%20b%2Cc", "e", "a b,c"), H("k", "", "")>>)}
Headers == \E sig \in Signals :
  \/ \E l \in Lists : HeaderCase(sig, <<>>, Some(l), None) \/ HeaderCase(sig, <<>>, None, Some(l))
  \/ \E s \in Small, g \in Small, h \in InCode : HeaderCase(sig, <<h>>, s, g)
  \/ \E h \in InCode, i \in InCode, s \in Small : HeaderCase(sig, <<h, i>>, s, None)
Init == hist = <<>>
Next == hist = <<>> /\ CASE Part = "endpoints" -> Endpoints [] Part = "encodings" -> Encodings [] Part = "timeouts" -> Timeouts
                         [] Part = "headers" -> Headers
(* Said again without the definitions above: an address in code is used as it is, *)
(* one from the general variable gets the path of its signal                      *)
Inv == hist # <<>> /\ hist[1].exp.built => LET h == hist[1] IN
  /\ h.code.e \notin {NotSet, ""} => h.exp.url = h.code.e
  /\ (\A v \in {h.code.e, h.env.se, h.env.ge} : v \in {NotSet, "", Junk.t}) => h.exp.url = DefaultUrl(h.sig)
  /\ \A x \in h.exp.headers : x.vs # {}
EmitT == Emit(hist')
=============================================================================
