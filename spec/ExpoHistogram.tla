---------------------------- MODULE ExpoHistogram ----------------------------
(***************************************************************************)
(* Exponential (base-2) histograms.  (Property M05.)                       *)
(*                                                                         *)
(* A value is known by its sign and by the index of its bucket at the      *)
(* finest scale, 20; its bucket at a coarser scale s is that index shifted *)
(* right by 20 - s.  A point's state is the list of the measurements it    *)
(* covers; everything it reports is a function of that list: the scale is  *)
(* the finest at which both signs fit into the configured number of        *)
(* buckets, and only a measurement that does not fit at scale -10 is       *)
(* dropped.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Cover
CONSTANTS Setups, MaxOps, SimLen, Pick(_)
VARIABLES su, S, rd, n, hist
vars == <<su, S, rd, n, hist>>
View == <<su, rd, n>>

E20 == 1048576
Mid(sg, i) == [sg |-> sg, i |-> i, p |-> "mid", v |-> 0]                    \* the middle of bucket i at scale 20
Pow(sg, k) == [sg |-> sg, i |-> k * E20 - 1, p |-> "pow", v |-> k]          \* 2^k, the upper bound of its bucket
IntV(v, i) == [sg |-> 1, i |-> i, p |-> "int", v |-> v]
Ng(x) == [x EXCEPT !.sg = 0 - x.sg]
Zero == [sg |-> 0, i |-> 0, p |-> "zero", v |-> 0]
NegZero == [sg |-> 0, i |-> 0, p |-> "negzero", v |-> 0]
Bad == {[sg |-> 2, i |-> 0, p |-> x, v |-> 0] : x \in {"nan", "inf", "-inf"}}
Ints == {IntV(3, 1661953), IntV(5, 2434718), IntV(7, 2943724), IntV(10, 3483294), IntV(100, 6966588), IntV(1000, 10449882),
         IntV(12345, 14251866), IntV(1000000, 20899764), Pow(1, 0), Pow(1, 1), Pow(1, 2), Pow(1, 4), Pow(1, 40), Zero}
Both(s) == s \cup {Ng(x) : x \in s}
P2(a) == CASE a = 0 -> 1 [] a = 4 -> 16 [] a = 5 -> 32 [] a = 10 -> 1024 [] a = 15 -> 32768 [] a = 19 -> 524288 [] a = 20 -> 1048576
           [] a = 25 -> 33554432 [] a = 27 -> 134217728
Wide == {Mid(1, c * P2(k) + d) : c \in (-7)..7, k \in {0, 4, 5, 10, 15, 19, 20, 25, 27}, d \in (-1)..1}
Far == {Pow(1, k) : k \in {-1074, -1073, -1050, -1025, -1024, -1023, -1022, -512, -100, -1, 0, 1, 2, 3, 100, 511, 512, 513, 1022, 1023}} \cup {Mid(1, 1024 * (E20 - 1) + 1023)}

Setup(s) ==
    CASE s = "tiny" -> [size |-> 2, max |-> 20, mm |-> TRUE, kind |-> "hist", num |-> "f64",
                        vals |-> {Mid(1, 0), Mid(1, 1), Mid(1, 2), Mid(1, -1), Mid(1, -3), Mid(-1, 5), Zero}]
      [] s = "four" -> [size |-> 4, max |-> 20, mm |-> TRUE, kind |-> "hist", num |-> "f64",
                        vals |-> {Mid(1, 0), Mid(1, 3), Mid(1, 4), Mid(1, -1), Mid(1, 9), Mid(-1, -2), Mid(-1, 7)}]
      [] s = "three" -> [size |-> 3, max |-> 2, mm |-> FALSE, kind |-> "hist", num |-> "f64",
                        vals |-> {Pow(1, 0), Pow(1, 1), Pow(1, -1), Pow(1, 2), Mid(1, 300000), Mid(1, -1), Mid(1, 0), NegZero}]
      [] s = "pow" -> [size |-> 4, max |-> 0, mm |-> TRUE, kind |-> "hist", num |-> "f64",
                        vals |-> {Pow(1, -1), Pow(1, 0), Pow(1, 1), Pow(1, 4), Pow(-1, 3), Mid(1, -1), Mid(1, 5 * E20)} \cup {x \in Bad : x.p = "nan"}]
      [] s = "neg" -> [size |-> 2, max |-> -4, mm |-> TRUE, kind |-> "hist", num |-> "f64",
                        vals |-> {Pow(1, -17), Pow(1, -16), Pow(1, 0), Pow(1, 16), Pow(1, 17), Mid(1, 16 * E20), Mid(-1, -16 * E20)} \cup {x \in Bad : x.p = "inf"}]
      [] s = "extreme" -> [size |-> 2, max |-> 20, mm |-> TRUE, kind |-> "hist", num |-> "f64",
                        vals |-> {Pow(1, -1074), Pow(1, -1023), Pow(1, 1023), Pow(1, 0), Mid(1, 0), Pow(-1, -1074), Pow(-1, 1023), Mid(1, 1024 * (E20 - 1) + 1023)}]
      [] s = "one" -> [size |-> 1, max |-> 20, mm |-> TRUE, kind |-> "hist", num |-> "f64",
                        vals |-> {Mid(1, 0), Mid(1, 1), Mid(1, -1), Pow(1, 0), Pow(1, 1023), Pow(1, -1024), Zero}]
      [] s = "ints" -> [size |-> 4, max |-> 20, mm |-> TRUE, kind |-> "hist", num |-> "u64",
                        vals |-> {IntV(3, 1661953), IntV(1000, 10449882), IntV(100, 6966588), Pow(1, 0), Pow(1, 1), Pow(1, 40), Zero}]
      [] s = "updown" -> [size |-> 3, max |-> 3, mm |-> TRUE, kind |-> "updown", num |-> "i64",
                        vals |-> {IntV(3, 1661953), Ng(IntV(3, 1661953)), Ng(IntV(5, 2434718)), IntV(7, 2943724), Pow(1, 0), Ng(Pow(1, 2)), Zero}]
      [] s = "gauge" -> [size |-> 4, max |-> 10, mm |-> FALSE, kind |-> "gauge", num |-> "i64",
                        vals |-> {IntV(10, 3483294), Ng(IntV(1000, 10449882)), IntV(12345, 14251866), Ng(Pow(1, 0)), Zero}]
      [] s = "walk160" -> [size |-> 160, max |-> 20, mm |-> TRUE, kind |-> "hist", num |-> "f64", vals |-> Both(Wide) \cup {Zero}]
      [] s = "walk5" -> [size |-> 5, max |-> 20, mm |-> TRUE, kind |-> "hist", num |-> "f64", vals |-> Wide \cup {Zero, NegZero} \cup Bad]
      [] s = "walk20" -> [size |-> 20, max |-> 6, mm |-> TRUE, kind |-> "hist", num |-> "f64", vals |-> Both({x \in Wide : x.i \in (-200)..200}) \cup Both(Ints) \cup {Zero}]
      [] s = "walknear" -> [size |-> 7, max |-> 20, mm |-> TRUE, kind |-> "hist", num |-> "f64", vals |-> Both({Mid(1, i) : i \in (-40)..40})]
      [] s = "walkfar" -> [size |-> 3, max |-> 20, mm |-> TRUE, kind |-> "hist", num |-> "f64", vals |-> Both(Far) \cup {Zero}]
      [] s = "walkint" -> [size |-> 10, max |-> 20, mm |-> TRUE, kind |-> "hist", num |-> "u64", vals |-> Ints]
      [] s = "walkcnt" -> [size |-> 8, max |-> 4, mm |-> FALSE, kind |-> "counter", num |-> "f64", vals |-> {x \in Wide : x.i \in (-200)..200} \cup {Zero}]

------------------------------------------------------------------------------
RECURSIVE Shift(_, _)
Shift(i, k) == IF k = 0 THEN i ELSE IF k >= 16 THEN Shift(i \div 65536, k - 16) ELSE Shift(i \div 2, k - 1)
RangeOf(q) == {q[k] : k \in 1..Len(q)}
Idx(q, sg) == {x.i : x \in {y \in RangeOf(q) : y.sg = sg}}
Min(s) == CHOOSE x \in s : \A y \in s : x <= y
Max(s) == CHOOSE x \in s : \A y \in s : x >= y
\* differences of the largest indices would leave TLC's integers at scales above 10: compare halves there
Span(q, sg, s) == LET z == Idx(q, sg) IN
                  IF z = {} THEN TRUE
                  ELSE LET lo == Shift(Min(z), 20 - s) hi == Shift(Max(z), 20 - s)
                       IN (hi \div 4) - (lo \div 4) <= S.size /\ hi - lo < S.size
Fits(q, s) == Span(q, 1, s) /\ Span(q, -1, s)
RECURSIVE Finest(_, _)
Finest(q, s) == IF Fits(q, s) THEN s ELSE Finest(q, s - 1)
Coarsest == -10
Less(a, b) == \* numerically
    IF a.sg # b.sg THEN a.sg < b.sg
    ELSE IF a.sg = 0 THEN FALSE
    ELSE LET sm(x, y) == x.i < y.i \/ (x.i = y.i /\ x.p = "mid" /\ y.p # "mid") IN IF a.sg = 1 THEN sm(a, b) ELSE sm(b, a)
Buckets(q, sg, s) ==
    LET mine == SelectSeq(q, LAMBDA x : x.sg = sg)
        at == TLCEval([k \in 1..Len(mine) |-> Shift(mine[k].i, 20 - s)])
    IN [b \in {ToString(at[k]) : k \in 1..Len(mine)} |-> Cardinality({k \in 1..Len(mine) : ToString(at[k]) = b})]
Same(a, b) == ~Less(a, b) /\ ~Less(b, a)
Point(q) ==
    LET s == Finest(q, S.max)
        nz == \E x \in RangeOf(q) : x.sg # 0
    IN [c |-> Len(q), z |-> Cardinality({k \in 1..Len(q) : q[k].sg = 0}), scale |-> IF nz THEN s ELSE 99,
        pos |-> Buckets(q, 1, s), neg |-> Buckets(q, -1, s), fits |-> TRUE,
        mn |-> IF S.mm THEN CHOOSE x \in RangeOf(q) : \A y \in RangeOf(q) : ~Less(y, x) ELSE Zero,
        mx |-> IF S.mm THEN CHOOSE x \in RangeOf(q) : \A y \in RangeOf(q) : ~Less(x, y) ELSE Zero,
        s |-> IF S.kind = "updown" THEN <<>> ELSE q]

Readers == <<"cum", "delta">>
Temp(r) == IF Readers[r] = "delta" /\ S.kind # "updown" THEN "delta" ELSE "cum"
Atts == {"", "a1;"}
Empty == [a \in Atts |-> <<>>]
Init == /\ su \in Setups /\ S = Setup(su)
        /\ rd = <<Empty, Empty>> /\ n = 0
        /\ hist = <<[op |-> "e_init", setup |-> [S EXCEPT !.vals = {}], exp |-> [ok |-> TRUE]]>>
Add(q, v) == LET q2 == Append(q, v) IN IF v.sg = 2 \/ ~Fits(q2, Coarsest) THEN q ELSE q2
Record(a, v) ==
    /\ rd' = TLCEval([r \in 1..2 |-> [rd[r] EXCEPT ![a] = Add(@, v)]])
    /\ hist' = Append(hist, [op |-> "e_rec", a |-> a, v |-> v, exp |-> [ok |-> TRUE]])
    /\ n' = n + 1 /\ UNCHANGED <<su, S>>
Collect(r) ==
    /\ \E has \in {{a \in Atts : rd[r][a] # <<>>}} :
         hist' = Append(hist, [op |-> "e_collect", r |-> r, exp |-> [pts |-> [a \in has |-> Point(rd[r][a])], temp |-> IF has = {} THEN "" ELSE Temp(r)]])
    /\ rd' = IF Temp(r) = "delta" THEN [rd EXCEPT ![r] = Empty] ELSE rd
    /\ n' = n + 1 /\ UNCHANGED <<su, S>>
Next == /\ n < MaxOps
        /\ \/ \E a \in (IF SimLen > 0 THEN Pick(Atts) ELSE {"a1;"}), v \in Pick(S.vals) : Record(a, v)
           \/ \E r \in Pick(IF SimLen > 0 /\ n % 3 # 0 THEN {} ELSE 1..2) : Collect(r)
NextSim == Len(hist) < SimLen /\ (Next \/ UNCHANGED vars)

------------------------------------------------------------------------------
(* what the specification itself guarantees *)
Consistent == \A r \in 1..2, a \in Atts : LET q == rd[r][a] IN q # <<>> =>
    LET p == Point(q) tot(f) == LET RECURSIVE t(_) t(d) == IF d = {} THEN 0 ELSE LET x == CHOOSE x \in d : TRUE IN f[x] + t(d \ {x}) IN t(DOMAIN f)
    IN /\ p.z + tot(p.pos) + tot(p.neg) = p.c
       /\ (p.scale # 99 => p.scale \in Coarsest..S.max)
       /\ Cardinality(DOMAIN p.pos) <= S.size /\ Cardinality(DOMAIN p.neg) <= S.size
EmitT == Emit(hist')
EmitSim == Len(hist') = SimLen => Emit(hist')
=============================================================================
