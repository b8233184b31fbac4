--------------------------------- MODULE W3C ---------------------------------
(***************************************************************************)
(* The W3C trace context format (property P01), at the level of            *)
(* characters.  The state is the exchange so far; every transition is one  *)
(* exchange with the propagator: extract a header into a context holding a *)
(* local span, or inject a span context and extract it again.              *)
(***************************************************************************)
EXTENDS Chars, Json, Cover

CONSTANTS Deep      \* TRUE: pairs of edits as well

VARIABLES hist
vars == <<hist>>

T1 == "4bf92f3577b34da6a3ce929d0e0e4736"
S1 == "00f067aa0ba902b7"
Z32 == Rep("0", 32)
Z16 == Rep("0", 16)

(* ---- what a traceparent means ---------------------------------------- *)
Bad == [ok |-> FALSE]
ParseParent(cs0) ==
    LET cs == Trim(cs0)
        p == SplitTerm(cs, "-") IN
    IF Len(p) < 4 THEN Bad
    ELSE IF Len(p[1]) # 2 \/ Len(p[2]) # 32 \/ Len(p[3]) # 16 \/ Len(p[4]) # 2 THEN Bad
    ELSE IF ~(AllIn(p[1], LHex) /\ AllIn(p[2], LHex) /\ AllIn(p[3], LHex) /\ AllIn(p[4], LHex)) THEN Bad
    ELSE IF p[1] = <<"f", "f">> THEN Bad
    ELSE IF p[1] = <<"0", "0">> /\ Len(p) # 4 THEN Bad
    ELSE IF AllZero(p[2]) \/ AllZero(p[3]) THEN Bad
    ELSE [ok |-> TRUE, tid |-> Join(p[2]), sid |-> Join(p[3]),
          sampled |-> p[4][2] \in {"1", "3", "5", "7", "9", "b", "d", "f"}]
\* version 00 defines flag bit 0 only; whether a header with other bits is taken is left open
Open(cs0) ==
    LET p == SplitTerm(Trim(cs0), "-") IN
    Len(p) >= 4 /\ p[1] = <<"0", "0">> /\ Len(p[4]) = 2
    /\ p[4] \notin {<<"0", "0">>, <<"0", "1">>, <<"0", "2">>} /\ AllIn(p[4], LHex)

(* ---- trace states offered together with a traceparent ------------------ *)
States == {[h |-> <<>>, m |-> ""],
           [h |-> <<"">>, m |-> ""],
           [h |-> <<"foo=bar">>, m |-> "foo=bar"],
           [h |-> <<"foo=1,b@v=2,_x=3">>, m |-> ""],
           [h |-> <<"foo=1,b@v=2">>, m |-> "foo=1,b@v=2"],
           [h |-> <<"k1=">>, m |-> "k1="],
           [h |-> <<"novalue">>, m |-> ""],
           [h |-> <<"=1">>, m |-> ""],
           [h |-> <<"FOO=1">>, m |-> ""],
           [h |-> <<"a=1,,b=2">>, m |-> ""],
           [h |-> <<"a=1," \o Rep("a", 257) \o "=2">>, m |-> ""],
           [h |-> <<"a=1," \o Rep("a", 256) \o "=2">>, m |-> "a=1," \o Rep("a", 256) \o "=2"]}

Extract(parent, st) ==
    [op |-> "w3c_extract", tp |-> parent, ts |-> st.h,
     exp |-> LET r == IF parent = <<>> THEN Bad ELSE ParseParent(Chars(parent[1])) IN
             IF r.ok THEN [r |-> "remote", tid |-> r.tid, sid |-> r.sid, sampled |-> r.sampled,
                           ts |-> st.m, marker |-> TRUE]
             ELSE [r |-> "base", marker |-> TRUE]]

Vers == {"00", "01", "02", "cc", "fe", "ff"}
Tids == {T1, Z32, Rep("0", 31) \o "1", Rep("f", 32), "8" \o Rep("0", 31)}
Sids == {S1, Z16, Rep("0", 15) \o "1", Rep("f", 16)}
Flags == {"00", "01", "02", "08", "09", "ff"}
Tails == {"", "-", "-x", "-what-the-future-brings", "--"}
Regular == {v \o "-" \o t \o "-" \o s \o "-" \o f \o x :
              v \in Vers, t \in Tids, s \in Sids, f \in Flags, x \in Tails}
Alphabet == {"0", "f", "g", "A", "+", "-", " ", "^", "_"}
Base == {Chars("00-" \o T1 \o "-" \o S1 \o "-01"), Chars("02-" \o T1 \o "-" \o S1 \o "-09-x")}
Mutants == UNION {Edits(b, Alphabet) : b \in Base}
Small == {Chars("00-" \o T1 \o "-" \o S1 \o "-01")}
Mutants2 == IF Deep THEN UNION {Edits(m, {"0", "+", "-"}) : m \in UNION {Edits(b, {"1", "-"}) : b \in Small}}
            ELSE {}
Shapes == {"", "-", "00", "00-", "00--" \o S1 \o "-01", "00-" \o T1, "00-" \o T1 \o "-" \o S1,
           "00-" \o T1 \o "-" \o S1 \o "-", "000-" \o T1 \o "-" \o S1 \o "-01",
           "00-0" \o T1 \o "-" \o S1 \o "-01", "00-" \o T1 \o "-0" \o S1 \o "-01",
           "00-" \o T1 \o "-" \o S1 \o "-001", "0-" \o T1 \o "-" \o S1 \o "-1",
           "00-1-1-01", "00-+1-+1-01", "+0-" \o T1 \o "-" \o S1 \o "-01", "00-" \o T1 \o "-" \o S1 \o "-+1"}
Headers == {<<Join(m)>> : m \in {m \in Mutants \cup Mutants2 : ~Open(m)}}
           \cup {<<h>> : h \in {h \in Regular : ~Open(Chars(h))}}
           \cup {<<h>> : h \in Shapes} \cup {<<>>}
GoodH == <<"00-" \o T1 \o "-" \o S1 \o "-01">>

(* ---- injection ---------------------------------------------------------- *)
FlagBytes == {0, 1, 2, 3, 4, 254, 255}
InjStates == {<<>>, <<<<"foo", "bar">>>>, <<<<"a", "1">>, <<"t@v", "x y/z">>>>,
              <<<<Rep("k", 256), Rep("v", 256)>>>>}
StHeader(kvs) == Join([i \in 1..Len(kvs) |-> (IF i = 1 THEN "" ELSE ",") \o kvs[i][1] \o "=" \o kvs[i][2]])
Inject(t, s, f, kvs) ==
    LET valid == t # Z32 /\ s # Z16
        samp == (f % 2) = 1 IN
    [op |-> "w3c_round", tid |-> t, sid |-> s, flags |-> f, kvs |-> kvs,
     exp |-> IF valid
             THEN [parent |-> "00-" \o t \o "-" \o s \o (IF samp THEN "-01" ELSE "-00"),
                   back |-> [r |-> "remote", tid |-> t, sid |-> s, sampled |-> samp,
                             ts |-> StHeader(kvs), marker |-> TRUE]]
             ELSE [parent |-> "none", back |-> [r |-> "base", marker |-> TRUE]]]

Init == hist = <<>>
Next == /\ hist = <<>>
        /\ \/ \E h \in Headers : hist' = <<Extract(h, [h |-> <<"foo=bar">>, m |-> "foo=bar"])>>
           \/ \E st \in States : hist' = <<Extract(GoodH, st)>>
           \/ \E st \in States : hist' = <<Extract(<<>>, st)>>
           \/ \E t \in Tids, s \in Sids, f \in FlagBytes, k \in InjStates : hist' = <<Inject(t, s, f, k)>>
Spec == Init /\ [][Next]_vars

\* what is injected is understood, and means what was injected
RoundTrip == hist # <<>> /\ hist[1].op = "w3c_round" /\ hist[1].exp.parent # "none" =>
    LET r == ParseParent(Chars(hist[1].exp.parent)) IN
    r.ok /\ r.tid = hist[1].tid /\ r.sid = hist[1].sid /\ r.sampled = ((hist[1].flags % 2) = 1)
Inv == RoundTrip
EmitT == Emit(hist')
=============================================================================
