------------------------------ MODULE JaegerB3 ------------------------------
(***************************************************************************)
(* The Jaeger and B3 propagation formats (property P05).                   *)
(***************************************************************************)
EXTENDS Chars, Json, Cover
VARIABLES hist
vars == <<hist>>

T1 == "4bf92f3577b34da6a3ce929d0e0e4736"
T2 == "a3ce929d0e0e4736"
S1 == "00f067aa0ba902b7"
Z32 == Rep("0", 32)
Z16 == Rep("0", 16)
None == [ok |-> FALSE]
Ok(t, s, smp) == [ok |-> TRUE, tid |-> t, sid |-> s, smp |-> smp]
Pad(cs, k) == Rep("0", k - Len(cs)) \o Join([i \in 1..Len(cs) |-> LowerOf(cs[i])])
Result(r) == IF r.ok THEN [r |-> "remote", tid |-> r.tid, sid |-> r.sid, smp |-> r.smp, marker |-> TRUE]
             ELSE [r |-> "base", marker |-> TRUE]

(* ---- Jaeger: trace:span:parent:flags ------------------------------------------ *)
JId(cs, k) == cs # <<>> /\ Len(cs) <= k /\ AllIn(cs, Hex) /\ ~AllZero(cs)
RECURSIVE Unescape(_)
Unescape(cs) == IF Len(cs) >= 3 /\ SubSeq(cs, 1, 3) = <<"%", "3", "A">> THEN <<":">> \o Unescape(SubSeq(cs, 4, Len(cs)))
                ELSE IF cs = <<>> THEN <<>> ELSE <<cs[1]>> \o Unescape(Tail(cs))
JParse(cs0) ==
    LET cs == IF \E i \in 1..Len(cs0) : cs0[i] = ":" THEN cs0 ELSE Unescape(cs0)
        p == SplitTerm(cs, ":") IN
    IF Len(p) # 4 THEN None
    ELSE IF ~JId(p[1], 32) \/ ~JId(p[2], 16) THEN None
    ELSE IF p[4] \notin {<<"0">>, <<"1">>, <<"2">>, <<"3">>} THEN None
    ELSE Ok(Pad(p[1], 32), Pad(p[2], 16), IF p[4] = <<"1">> THEN "1" ELSE IF p[4] = <<"3">> THEN "?" ELSE "0")
\* flags other than these are not decided here
JOpen(cs0) == LET cs == IF \E i \in 1..Len(cs0) : cs0[i] = ":" THEN cs0 ELSE Unescape(cs0)
                  p == SplitTerm(cs, ":") IN
              Len(p) = 4 /\ p[4] \notin {<<"0">>, <<"1">>, <<"2">>, <<"3">>}
Cfgs == {"default", "custom", "custom_both", "blank"}
JExtract(h, cfg) == [op |-> "j_extract", cfg |-> cfg, h |-> h,
                     exp |-> Result(IF h = <<>> THEN None ELSE JParse(Chars(h[1])))]
JBase == Chars(T1 \o ":" \o S1 \o ":0:1")
JHeaders == {t \o ":" \o s \o ":" \o p \o ":" \o f :
               t \in {T1, T2, "1", "A", "", Z32, "0", "0" \o T1, Rep("f", 32), "+1", "-1", "0x1"},
               s \in {S1, "1", "F", "", Z16, "0", "0" \o S1, Rep("f", 16), "+1", "+00000000000001"},
               p \in {"0", "", S1}, f \in {"0", "1", "3"}}
            \cup {T1 \o "%3A" \o S1 \o "%3A0%3A" \o f : f \in {"0", "1"}}
            \cup {Z32 \o "%3A" \o S1 \o "%3A0%3A1", T1 \o "%3A" \o S1 \o "%3A0", "", ":", ":::", "a:b", T1}
            \cup {Join(e) : e \in {e \in Edits(JBase, {"0", "g", "A", "+", ":", " ", "^"}) : ~JOpen(e)}}
JRound(t, s, f, cfg) ==
    [op |-> "j_round", tid |-> t, sid |-> s, flags |-> f, cfg |-> cfg,
     exp |-> Result(IF t = Z32 \/ s = Z16 THEN None
                    ELSE Ok(t, s, IF f % 2 = 0 THEN "0" ELSE IF (f \div 4) % 2 = 1 THEN "?" ELSE "1"))]

(* ---- B3 ------------------------------------------------------------------------- *)
BTid(cs) == Len(cs) \in {16, 32} /\ AllIn(cs, LHex) /\ ~AllZero(cs)
BSid(cs) == Len(cs) = 16 /\ AllIn(cs, LHex) /\ ~AllZero(cs)
BHexSid(cs) == Len(cs) = 16 /\ AllIn(cs, LHex)
Smp(cs) == IF cs = <<"0">> THEN "0" ELSE IF cs = <<"1">> THEN "1" ELSE "bad"
Single(h) ==
    IF h = <<>> THEN None
    ELSE LET p == SplitTerm(Chars(h[1]), "-") IN
         IF Len(p) < 2 \/ Len(p) > 4 THEN None
         ELSE IF ~BTid(p[1]) \/ ~BSid(p[2]) THEN None
         ELSE IF Len(p) >= 3 /\ Smp(p[3]) = "bad" THEN None
         ELSE IF Len(p) = 4 /\ ~BHexSid(p[4]) THEN None
         ELSE Ok(Pad(p[1], 32), Pad(p[2], 16), IF Len(p) = 2 THEN "?" ELSE Smp(p[3]))
Multi(m) ==
    IF m.t = <<>> \/ m.s = <<>> THEN None
    ELSE IF ~BTid(Chars(m.t[1])) \/ ~BSid(Chars(m.s[1])) THEN None
    ELSE IF m.smp # <<>> /\ Smp(Chars(m.smp[1])) = "bad" THEN None
    ELSE Ok(Pad(Chars(m.t[1]), 32), Pad(Chars(m.s[1]), 16), IF m.smp = <<>> THEN "?" ELSE Smp(Chars(m.smp[1])))
Encs == {"multi", "single", "both", "unspec"}
B3Parse(h, m) == LET a == Single(h) IN IF a.ok THEN a ELSE Multi(m)
BExtract(h, m, e) == [op |-> "b_extract", enc |-> e, h |-> h, m |-> m, exp |-> Result(B3Parse(h, m))]
NoMulti == [t |-> <<>>, s |-> <<>>, smp |-> <<>>]
GoodMulti == [t |-> <<Rep("b", 32)>>, s |-> <<Rep("c", 16)>>, smp |-> <<"1">>]
SBase == Chars(T1 \o "-" \o S1 \o "-1")
SBase2 == Chars(T2 \o "-" \o S1 \o "-0-" \o S1)
\* a single header whose sampling state is not 0 or 1 is only used with malformed ids
SOpen(cs) == LET p == SplitTerm(cs, "-") IN Len(p) \in 3..4 /\ Smp(p[3]) = "bad"
Singles == {<<Join(x)>> : x \in {x \in Edits(SBase, {"0", "g", "A", "+", "-", " ", "^"}) : ~SOpen(x)}
                             \cup {x \in Edits(SBase2, {"g", "-"}) : ~SOpen(x)}}
           \cup {<<t \o "-" \o s \o x>> : t \in {T1, T2, Z32, Z16, Rep("f", 32), "", "+" \o SubSeq(T2, 2, 16)},
                   s \in {S1, Z16, Rep("f", 16), "", "+" \o SubSeq(S1, 2, 16)}, x \in {"", "-0", "-1", "-1-" \o S1, "-0-" \o Z16}}
           \cup {<<"0">>, <<"1">>, <<"">>, <<"-">>, <<T1>>}
           \cup {<<>>}
IdT == {T1, T2, Z32, Z16, "", Rep("f", 32), Rep("a", 31), Rep("a", 33), Rep("a", 17), "+" \o SubSeq(T1, 2, 32),
        "A" \o SubSeq(T1, 2, 32), "g" \o SubSeq(T1, 2, 32), "+" \o SubSeq(T2, 2, 16)}
IdS == {S1, Z16, "", Rep("f", 16), Rep("a", 15), Rep("a", 17), "+" \o SubSeq(S1, 2, 16), "F" \o SubSeq(S1, 2, 16)}
Multis == {[t |-> t, s |-> s, smp |-> x] :
             t \in {<<i>> : i \in IdT} \cup {<<>>}, s \in {<<i>> : i \in IdS} \cup {<<>>}, x \in {<<>>, <<"0">>, <<"1">>}}
BRound(t, s, f, e1, e2) ==
    [op |-> "b_round", tid |-> t, sid |-> s, flags |-> f, enc |-> e1, dec |-> e2,
     exp |-> Result(IF t = Z32 \/ s = Z16 THEN None ELSE Ok(t, s, IF f = 1 THEN "1" ELSE "0"))]

Init == hist = <<>>
Tids == {T1, Z32, Rep("0", 31) \o "1", Rep("0", 16) \o T2, Rep("f", 32)}
Sids == {S1, Z16, Rep("0", 15) \o "1", Rep("f", 16)}
Next == /\ hist = <<>>
        /\ \/ \E h \in JHeaders : hist' = <<JExtract(<<h>>, "default")>>
           \/ \E h \in {<<>>, <<Join(JBase)>>, <<"x">>}, c \in Cfgs : hist' = <<JExtract(h, c)>>
           \/ \E t \in Tids, s \in Sids, f \in {0, 1, 5, 254, 255}, c \in Cfgs : hist' = <<JRound(t, s, f, c)>>
           \/ \E h \in Singles, e \in Encs, m \in {NoMulti, GoodMulti} : hist' = <<BExtract(h, m, e)>>
           \/ \E m \in Multis, e \in Encs, h \in {<<>>, <<"bad">>} : hist' = <<BExtract(h, m, e)>>
           \/ \E t \in Tids, s \in Sids, f \in {0, 1}, e1 \in Encs, e2 \in Encs : hist' = <<BRound(t, s, f, e1, e2)>>
Inv == TRUE
EmitT == Emit(hist')
=============================================================================
