----------------------------- MODULE BaggageWire -----------------------------
(***************************************************************************)
(* Baggage on the wire (property P04): what a header means, and that what  *)
(* is injected comes back.                                                 *)
(***************************************************************************)
EXTENDS Chars, Json, Cover
CONSTANTS N1, N2, N3, NM   \* lengths of generated values; list members
VARIABLES hist
vars == <<hist>>

(* ---- decoding -------------------------------------------------------------- *)
PctTable == {<<"2C", ",">>, <<"2c", ",">>, <<"3B", ";">>, <<"3D", "=">>, <<"20", " ">>, <<"25", "%">>,
             <<"41", "A">>, <<"6B", "k">>, <<"22", "\"">>}
\* "%FF" is a byte that no UTF-8 text contains; a "%" that is not followed by two hex digits
\* stands for itself
RECURSIVE Decode(_)
Decode(cs) ==
    IF cs = <<>> THEN [ok |-> TRUE, cs |-> <<>>]
    ELSE IF cs[1] = "%" /\ Len(cs) >= 3 /\ cs[2] \in Hex /\ cs[3] \in Hex
    THEN LET xx == cs[2] \o cs[3]
             hit == {p \in PctTable : p[1] = xx}
             rest == Decode(SubSeq(cs, 4, Len(cs))) IN
         IF hit = {} THEN [ok |-> FALSE, cs |-> <<>>]
         ELSE [ok |-> rest.ok, cs |-> <<(CHOOSE p \in hit : TRUE)[2]>> \o rest.cs]
    ELSE LET rest == Decode(Tail(cs)) IN [ok |-> rest.ok, cs |-> <<cs[1]>> \o rest.cs]

NameBad == {"(", ")", ",", "/", ":", ";", "<", "=", ">", "?", "@", "[", "\\", "]", "{", "}", "\"", " ", "^", "`"}
ValidName(cs) == cs # <<>> /\ \A i \in 1..Len(cs) : cs[i] \notin NameBad

MapTrim(ps) == [i \in 1..Len(ps) |-> Trim(Decode(ps[i]).cs)]
RECURSIVE JoinSemi(_)
JoinSemi(ps) == IF ps = <<>> THEN <<>> ELSE IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o <<";">> \o JoinSemi(Tail(ps))

Skip == [ok |-> FALSE]
Member(cs) ==
    LET p == Split(cs, ";")
        eq == {i \in 1..Len(p[1]) : p[1][i] = "="} IN
    IF eq = {} THEN Skip
    ELSE LET k == CHOOSE i \in eq : \A j \in eq : i <= j
             dn == Decode(SubSeq(p[1], 1, k - 1))
             dv == Decode(SubSeq(p[1], k + 1, Len(p[1]))) IN
         IF ~dn.ok \/ ~dv.ok \/ ~ValidName(Trim(dn.cs)) THEN Skip
         ELSE [ok |-> TRUE, n |-> Join(Trim(dn.cs)), v |-> Join(Trim(dv.cs)),
               m |-> Join(Trim(JoinSemi(MapTrim(Tail(p)))))]
RECURSIVE Put(_, _)
Put(acc, ms) == IF ms = <<>> THEN acc
                ELSE LET m == Member(Chars(Head(ms))) IN
                     Put(IF ~m.ok THEN acc
                         ELSE SelectSeq(acc, LAMBDA e : e[1] # m.n) \o <<<<m.n, m.v, m.m>>>>, Tail(ms))
ToSet(q) == {q[i] : i \in 1..Len(q)}

Members == {"a=1", "b=2;m=1", " c = 3 ", "d", "=5", "e=%zz", "f=%FF", "g=x=y", "", "i=1;p; q = 2 ;r",
            "a=9;z", "(=1", "j=%2C%3B%3D%25", "%6B%=1", "k%=%", "l=;", "m=%20x%20", "n%3D=1", "o==", "%41=7"}
Lists == UNION {[1..k -> Members] : k \in 0..NM}
JoinComma(ms) == Join([i \in 1..Len(ms) |-> (IF i = 1 THEN "" ELSE ",") \o ms[i]])

Extract(ms, base) ==
    [op |-> "bag_extract", h |-> <<JoinComma(ms)>>, base |-> base, exp |-> [ents |-> ToSet(Put(<<>>, ms)), marker |-> TRUE]]
NoHeader(base) ==
    [op |-> "bag_extract", h |-> <<>>, base |-> base,
     exp |-> [ents |-> IF base THEN {<<"base", "B", "mb">>} ELSE {}, marker |-> TRUE]]

(* ---- round trips ------------------------------------------------------------ *)
A == {"a", "4", "1", " ", ",", ";", "=", "%", "^", "`", "\"", "\\", "+"}
MA == {"a", "4", "1", " ", ",", "=", "%", "^"}
Strs(n, S) == UNION {[1..k -> S] : k \in 0..n}
Values == Strs(N1, A) \cup Strs(N2, {"%", "4", "1", "=", ","})
Props == {Trim(p) : p \in Strs(N3, MA)}
Metas == {<<>>} \cup {p : p \in Props} \cup {p \o <<";">> \o q : p \in Strs(1, MA), q \in Strs(1, MA)}
NormMeta(cs) == LET ps == Split(cs, ";") IN Trim(JoinSemi([i \in 1..Len(ps) |-> Trim(ps[i])]))
Round(ents) ==
    [op |-> "bag_round", ents |-> [i \in 1..Len(ents) |-> <<ents[i][1], Join(ents[i][2]), Join(ents[i][3])>>],
     exp |-> [ents |-> {<<ents[i][1], Join(Trim(ents[i][2])), Join(NormMeta(ents[i][3]))>> : i \in 1..Len(ents)},
              clean |-> TRUE]]

Init == hist = <<>>
Next == /\ hist = <<>>
        /\ \/ \E l \in Lists, b \in BOOLEAN : l # <<>> /\ hist' = <<Extract(l, b)>>
           \/ \E b \in BOOLEAN : hist' = <<NoHeader(b)>>
           \/ \E v \in Values : hist' = <<Round(<<<<"k", v, <<>>>>>>)>>
           \/ \E m \in Metas : hist' = <<Round(<<<<"k", <<"v">>, m>>>>)>>
           \/ \E nm \in {"a%41", "%", "!#$", "k%2C"} : hist' = <<Round(<<<<nm, <<"%", "4", "1">>, <<>>>>>>)>>
           \/ \E v \in Strs(1, A), w \in Strs(1, A), m \in Strs(1, MA) :
                 hist' = <<Round(<<<<"k", v, m>>, <<"l", w, <<>>>>, <<"m%", <<"x">> \o v \o w, m>>>>)>>
Inv == TRUE
EmitT == Emit(hist')
=============================================================================
