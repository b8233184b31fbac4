------------------------------- MODULE Metrics -------------------------------
(***************************************************************************)
(* The metrics pipeline, seen from outside: instruments, views, streams,   *)
(* attribute sets, cardinality limits, readers with their own temporality, *)
(* explicit-bucket histograms, observable instruments.                     *)
(* (Properties M01-M04, M06-M10 and the instrument part of M12, for calls  *)
(* that do not overlap in time; MetricRaces covers those that do.)         *)
(*                                                                         *)
(* A stream's state is simply the measurements it covers: per reader and   *)
(* attribute set, the values recorded since the reader's last reset.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Cover
CONSTANTS Setups, MaxOps, SimLen, Pick(_)
VARIABLES su,        \* the name of the setup
          S,         \* the setup itself (determined by su)
          ss, tg,    \* the streams there are, and which of them each instrument feeds (determined by su and made)
          made,      \* instruments created so far, in order (indices into the setup's list)
          rd,        \* reader -> stream number -> what it holds
          obs,       \* observable instrument -> what its callback reports now
          cbs,       \* observable instrument -> how often its callback has run
          n, hist
vars == <<su, S, ss, tg, made, rd, obs, cbs, n, hist>>
View == <<su, made, rd, obs, cbs, n>>

------------------------------------------------------------------------------
(* Attributes.  A token is one key-value pair; a list of tokens with distinct keys is what a   *)
(* caller passes; the set of its tokens is what identifies the data point.                     *)
Tokens == <<"a1", "a2", "a1f", "a1s", "at", "aL", "aM", "b1", "b2", "c1", "x1">>
KeyOf(t) == CASE t \in {"a1", "a2", "a1f", "a1s", "at", "aL", "aM"} -> "a"
              [] t \in {"b1", "b2"} -> "b" [] t = "c1" -> "c" [] t = "x1" -> "x"
RangeOf(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE NameFrom(_, _)
NameFrom(z, i) == IF i > Len(Tokens) THEN "" ELSE (IF Tokens[i] \in z THEN Tokens[i] \o ";" ELSE "") \o NameFrom(z, i + 1)
SetName(z) == NameFrom(z, 1)           \* the canonical name of an attribute set; "" is the empty one
Kept(list, keep) == IF keep = {"*"} THEN RangeOf(list) ELSE {t \in RangeOf(list) : KeyOf(t) \in keep}

------------------------------------------------------------------------------
(* Instruments, views, setups *)
I(name, kind, num) == [name |-> name, kind |-> kind, num |-> num, unit |-> "", desc |-> "", lim |-> 0, bounds |-> "default",
                       scope |-> "s1", bad |-> FALSE, late |-> FALSE]
V(name) == [name |-> name, kind |-> "", unit |-> "", scope |-> "", to |-> "", todesc |-> "", tounit |-> "", agg |-> "", keep |-> {"*"}, lim |-> 0]
Observable(k) == k \in {"ocounter", "oupdown", "ogauge"}

L0 == <<>>
La == <<"a1">>
Lab == <<"a1", "b1">>
Lba == <<"b1", "a1">>
Perm3 == {<<"a1", "b1", "c1">>, <<"a1", "c1", "b1">>, <<"b1", "a1", "c1">>, <<"b1", "c1", "a1">>, <<"c1", "a1", "b1">>, <<"c1", "b1", "a1">>}
Types == {<<"a1">>, <<"a2">>, <<"a1f">>, <<"a1s">>, <<"at">>, <<"aL">>, <<"aM">>}
Base == [readers |-> <<"cum">>, insts |-> <<I("i1", "counter", "u64")>>, views |-> <<>>, atts |-> {L0, La, Lab, Lba}, hv |-> {5}, obs |-> {}, tab |-> "F"]

OneOfEach == <<[I("i1", "counter", "u64") EXCEPT !.unit = "ms"], [I("i2", "counter", "f64") EXCEPT !.desc = "d2"], I("i3", "updown", "i64"), I("i4", "updown", "f64"), I("i5", "gauge", "u64"),
               I("i6", "gauge", "i64"), I("i7", "gauge", "f64"), I("i8", "hist", "u64"), I("i9", "hist", "f64")>>
Obs1 == {<<>>, <<La>>, <<Lab>>, <<Lba, L0>>, <<La, Lab>>, <<Lba, La>>}
WithLim(i, l) == [i EXCEPT !.lim = l]
Setup(s) ==
    CASE s = "orders" -> [Base EXCEPT !.readers = <<"cum", "delta">>, !.atts = Perm3 \cup {Lba}]
      [] s = "types" -> [Base EXCEPT !.readers = <<"delta">>, !.atts = Types \cup {<<"a1", "b1">>, <<"b1", "a1s">>}]
      [] s = "orders_hist" -> [Base EXCEPT !.readers = <<"delta", "cum">>, !.insts = <<[I("i1", "hist", "f64") EXCEPT !.bounds = "b2"]>>,
                                          !.atts = {Lab, Lba, La}, !.hv = {3, 8}]
      [] s = "orders_gauge" -> [Base EXCEPT !.readers = <<"delta", "cum">>, !.insts = <<I("i1", "gauge", "i64")>>, !.atts = {L0, Lab, Lba, La}]
      [] s = "kinds" -> [Base EXCEPT !.readers = <<"cum", "delta", "low">>, !.insts = OneOfEach, !.atts = {L0, Lba}]
      [] s = "kinds2" -> [Base EXCEPT !.readers = <<"low", "delta">>, !.insts = OneOfEach, !.atts = {Lab, Lba}]
      \* cardinality limits
      [] s = "limit1" -> [Base EXCEPT !.readers = <<"delta", "cum">>, !.insts = <<WithLim(I("i1", "counter", "u64"), 1)>>, !.atts = {L0, Lab, Lba, La}]
      [] s = "limit2" -> [Base EXCEPT !.readers = <<"delta", "cum">>, !.insts = <<WithLim(I("i1", "updown", "i64"), 2)>>, !.atts = {L0, Lab, Lba, La, <<"a2">>, <<"b2">>}]
      [] s = "limit_hist" -> [Base EXCEPT !.readers = <<"delta", "cum">>, !.insts = <<[WithLim(I("i1", "hist", "u64"), 1) EXCEPT !.bounds = "b1"]>>,
                                          !.atts = {L0, Lab, Lba, La}]
      [] s = "limit_gauge" -> [Base EXCEPT !.readers = <<"delta", "cum">>, !.insts = <<WithLim(I("i1", "gauge", "f64"), 1)>>, !.atts = {L0, Lab, Lba, La}]
      [] s = "limit_view" -> [Base EXCEPT !.readers = <<"delta", "cum">>, !.insts = <<WithLim(I("i1", "counter", "f64"), 1)>>,
                                          !.views = <<[V("i1") EXCEPT !.keep = {"a"}, !.lim = 2, !.to = "v1"], [V("i1") EXCEPT !.to = "v2", !.lim = 1]>>,
                                          !.atts = {La, Lba, <<"a2", "b1">>, <<"b2">>, <<"a1s">>}]
      \* observable instruments
      [] s = "obs" -> [Base EXCEPT !.readers = <<"delta">>, !.insts = <<I("o1", "ocounter", "u64"), I("o2", "oupdown", "i64"), I("o3", "ogauge", "i64")>>, !.obs = Obs1]
      [] s = "obs_cum" -> [Base EXCEPT !.readers = <<"cum">>, !.insts = <<I("o1", "ocounter", "f64"), I("o3", "ogauge", "f64")>>, !.obs = Obs1]
      [] s = "obs_two" -> [Base EXCEPT !.readers = <<"delta", "delta">>, !.insts = <<I("o1", "ocounter", "u64"), I("o3", "ogauge", "u64")>>,
                                       !.obs = {<<>>, <<La>>, <<Lab>>, <<Lba, La>>}]
      [] s = "obs_mix" -> [Base EXCEPT !.readers = <<"cum", "delta">>, !.insts = <<I("o1", "oupdown", "f64"), I("o2", "ocounter", "f64")>>, !.obs = {<<>>, <<La, Lba>>, <<Lab>>}]
      [] s = "obs_low" -> [Base EXCEPT !.readers = <<"low">>, !.insts = <<I("o1", "oupdown", "i64"), I("o2", "ocounter", "u64"), I("o3", "ogauge", "f64")>>,
                                       !.obs = {<<>>, <<La, Lba>>, <<Lab>>}]
      [] s = "obs_dup" -> [Base EXCEPT !.readers = <<"delta">>, !.insts = <<I("o1", "ocounter", "u64"), I("O1", "ocounter", "u64"), I("o1", "updown", "i64")>>,
                                       !.obs = {<<>>, <<La>>}, !.atts = {La}]
      \* explicit-bucket histograms
      [] s = "hist_f" -> [Base EXCEPT !.readers = <<"cum">>, !.insts = <<[I("h1", "hist", "f64") EXCEPT !.bounds = "b3"], [I("h2", "hist", "f64") EXCEPT !.bounds = "all"],
                                                                         I("h3", "hist", "f64")>>, !.atts = {L0}, !.hv = 1..12]
      [] s = "hist_u" -> [Base EXCEPT !.readers = <<"delta">>, !.insts = <<[I("h1", "hist", "u64") EXCEPT !.bounds = "b3"], [I("h2", "hist", "u64") EXCEPT !.bounds = "none"],
                                                                          I("h3", "hist", "u64")>>, !.atts = {La}, !.hv = 1..12]
      [] s = "hist_edge" -> [Base EXCEPT !.readers = <<"delta", "cum">>, !.insts = <<[I("h1", "hist", "f64") EXCEPT !.bounds = "b1"], [I("h2", "hist", "u64") EXCEPT !.bounds = "b2"]>>,
                                          !.atts = {L0, La}, !.hv = {1, 5, 6, 12}]
      [] s = "hist_views" -> [Base EXCEPT !.readers = <<"delta", "low">>, !.insts = <<I("h1", "hist", "f64"), I("c1", "counter", "u64"), I("u1", "updown", "i64"), I("g1", "gauge", "f64")>>,
                                          !.views = <<[V("*") EXCEPT !.agg = "hist:b2"]>>, !.atts = {L0, Lab, Lba}, !.hv = {2, 7, 8}, !.tab = "U"]
      [] s = "hist_sum" -> [Base EXCEPT !.readers = <<"delta", "cum">>, !.insts = <<I("h1", "hist", "u64")>>,
                                          !.views = <<[V("h1") EXCEPT !.agg = "sum", !.to = "s1"], [V("h?") EXCEPT !.agg = "hist:b3"]>>, !.atts = {L0, Lab}, !.hv = {1, 7, 9}, !.tab = "U"]
      \* views
      [] s = "v_rename" -> [Base EXCEPT !.readers = <<"delta">>, !.insts = <<I("i1", "counter", "u64"), I("i2", "counter", "u64"), I("i3", "updown", "i64")>>,
                                         !.views = <<[V("i1") EXCEPT !.to = "r1", !.todesc = "d", !.tounit = "u"]>>, !.atts = {L0, La}]
      [] s = "v_filter" -> [Base EXCEPT !.readers = <<"cum", "delta">>, !.insts = <<I("i1", "counter", "u64"), I("i2", "hist", "f64")>>,
                                         !.views = <<[V("i*") EXCEPT !.keep = {"b", "a"}]>>,
                                         !.atts = {<<"x1">>, <<"x1", "a1">>, <<"a1", "x1", "b1">>, Lba, <<"c1", "b1", "x1">>}]
      [] s = "v_none" -> [Base EXCEPT !.readers = <<"delta">>, !.insts = <<I("i1", "updown", "f64"), I("i2", "gauge", "u64")>>,
                                         !.views = <<[V("i1") EXCEPT !.keep = {}], [V("") EXCEPT !.kind = "gauge", !.keep = {"b"}]>>, !.atts = {L0, Lab, <<"x1">>}]
      [] s = "v_two" -> [Base EXCEPT !.readers = <<"delta", "cum">>, !.insts = <<I("i1", "counter", "u64"), I("i2", "counter", "u64")>>,
                                         !.views = <<[V("i1") EXCEPT !.to = "r1"], [V("i1") EXCEPT !.to = "r2", !.keep = {"a"}], [V("i2") EXCEPT !.to = "r1"], [V("i2") EXCEPT !.to = "R1"]>>,
                                         !.atts = {L0, Lab}]
      [] s = "v_drop" -> [Base EXCEPT !.readers = <<"delta", "cum">>, !.insts = <<I("i1", "counter", "u64"), I("i2", "hist", "f64"), I("o1", "ocounter", "u64"), I("i3", "gauge", "u64")>>,
                                         !.views = <<[V("i1") EXCEPT !.agg = "drop"], [V("o1") EXCEPT !.agg = "drop"], [V("i3") EXCEPT !.agg = "drop", !.to = "gone"], [V("i3") EXCEPT !.to = "kept"]>>,
                                         !.atts = {La}, !.obs = {<<>>, <<La>>}]
      [] s = "v_scope" -> [Base EXCEPT !.readers = <<"cum">>, !.insts = <<I("i1", "counter", "u64"), [I("i1", "counter", "u64") EXCEPT !.scope = "s2"]>>,
                                         !.views = <<[V("") EXCEPT !.scope = "s2", !.keep = {"a"}], [V("") EXCEPT !.unit = "ms", !.agg = "drop"]>>, !.atts = {Lab, Lba}]
      [] s = "v_wild" -> [Base EXCEPT !.readers = <<"delta">>, !.insts = <<I("i1", "counter", "u64"), I("i12", "counter", "u64"), I("j1", "hist", "u64")>>,
                                         !.views = <<[V("i?") EXCEPT !.keep = {"b"}], [V("*1") EXCEPT !.keep = {"b"}], [V("*") EXCEPT !.kind = "hist", !.unit = "zz", !.agg = "drop"]>>,
                                         !.atts = {Lab, <<"x1">>}]
      [] s = "v_unit" -> [Base EXCEPT !.readers = <<"delta">>, !.insts = <<[I("i1", "counter", "u64") EXCEPT !.unit = "ms"], [I("i2", "counter", "u64") EXCEPT !.unit = "s"], I("i3", "updown", "i64")>>,
                                         !.views = <<[V("i*") EXCEPT !.unit = "ms", !.keep = {}], [V("i3") EXCEPT !.kind = "counter", !.agg = "drop"]>>, !.atts = {La}]
      \* instrument identity
      [] s = "ident" -> [Base EXCEPT !.readers = <<"delta">>, !.insts = <<I("i1", "counter", "u64"), [I("I1", "counter", "u64") EXCEPT !.late = TRUE],
                                            I("i1", "counter", "f64"), I("i1", "updown", "i64"), [I("i1", "counter", "u64") EXCEPT !.unit = "ms"],
                                            [I("i1", "counter", "u64") EXCEPT !.desc = "d"], [I("i1", "counter", "u64") EXCEPT !.scope = "s2"]>>, !.atts = {La}]
      [] s = "again" -> [Base EXCEPT !.readers = <<"delta", "cum">>, !.insts = <<[I("i1", "hist", "u64") EXCEPT !.bounds = "b1"], [I("I1", "hist", "u64") EXCEPT !.bounds = "b3", !.late = TRUE],
                                            [I("i1", "hist", "u64") EXCEPT !.late = TRUE]>>, !.atts = {La, L0}, !.hv = {3, 8}]
      [] s = "late" -> [Base EXCEPT !.readers = <<"delta", "cum">>, !.insts = <<[I("i1", "gauge", "u64") EXCEPT !.late = TRUE], [I("i2", "counter", "u64") EXCEPT !.late = TRUE, !.scope = "s2"],
                                            [I("o1", "ocounter", "u64") EXCEPT !.late = TRUE]>>, !.atts = {La}, !.obs = {<<La>>}]
      \* invalid instruments
      [] s = "bad" -> [Base EXCEPT !.readers = <<"cum">>, !.insts = <<I("i1", "counter", "u64"), [I("1x", "counter", "u64") EXCEPT !.bad = TRUE], [I("a b", "gauge", "i64") EXCEPT !.bad = TRUE],
                             [I("", "updown", "f64") EXCEPT !.bad = TRUE], [I("n256", "hist", "u64") EXCEPT !.bad = TRUE], I("n255", "counter", "f64"), I("a_.-/1", "updown", "i64"),
                             [I("i2", "counter", "u64") EXCEPT !.unit = "u64", !.bad = TRUE], [I("i2", "counter", "u64") EXCEPT !.unit = "u63"], [I("i3", "gauge", "f64") EXCEPT !.unit = "\\u", !.bad = TRUE],
                             [I("1o", "ocounter", "u64") EXCEPT !.bad = TRUE]>>, !.atts = {La}, !.obs = {<<La>>}]
      [] s = "badhist" -> [Base EXCEPT !.readers = <<"delta">>, !.insts = <<[I("i1", "hist", "u64") EXCEPT !.bounds = "bad_unsorted", !.bad = TRUE], [I("i1", "hist", "u64") EXCEPT !.bounds = "b1"],
                             [I("i1", "hist", "f64") EXCEPT !.bounds = "bad_dup", !.bad = TRUE], [I("i2", "hist", "f64") EXCEPT !.bounds = "bad_nan", !.bad = TRUE],
                             [I("i2", "hist", "f64") EXCEPT !.bounds = "bad_inf", !.bad = TRUE], I("i3", "counter", "u64")>>, !.atts = {La}, !.hv = {3, 8}]
      \* long random walks over a bit of everything
      [] s = "mix" -> [Base EXCEPT !.readers = <<"cum", "delta", "low">>,
                             !.insts = <<[I("i1", "counter", "u64") EXCEPT !.unit = "ms", !.desc = "d1"], WithLim(I("i2", "counter", "f64"), 3), [I("i3", "updown", "i64") EXCEPT !.unit = "By"], [I("i4", "gauge", "i64") EXCEPT !.desc = "d4"], [I("i5", "hist", "f64") EXCEPT !.bounds = "b3"],
                                         I("o1", "ocounter", "u64"), I("o2", "oupdown", "i64"), I("o3", "ogauge", "f64"), [I("I1", "counter", "u64") EXCEPT !.late = TRUE]>>,
                             !.views = <<[V("i3") EXCEPT !.keep = {"a"}], [V("i3") EXCEPT !.to = "v3"]>>,
                             !.atts = Perm3 \cup Types \cup {L0, La, Lab, Lba, <<"b2">>, <<"x1", "a1">>}, !.hv = 1..12, !.obs = Obs1]
      [] s = "mix2" -> [Base EXCEPT !.readers = <<"delta", "delta">>,
                             !.insts = <<[WithLim(I("i1", "counter", "u64"), 2) EXCEPT !.unit = "s"], [WithLim(I("i2", "hist", "u64"), 2) EXCEPT !.unit = "ms", !.desc = "d2"], WithLim(I("i3", "gauge", "f64"), 2), WithLim(I("i4", "updown", "f64"), 4),
                                         [I("i5", "counter", "f64") EXCEPT !.scope = "s2"], I("o1", "ocounter", "f64")>>,
                             !.views = <<[V("i2") EXCEPT !.keep = {"a", "b"}], [V("i?") EXCEPT !.kind = "counter", !.keep = {"b", "c", "a"}]>>,
                             !.atts = Perm3 \cup Types \cup {L0, La, Lab, Lba, <<"b2">>, <<"x1", "a1">>, <<"x1">>}, !.hv = 1..12, !.obs = Obs1]

Inst(i) == S.insts[i]
Readers == 1..Len(S.readers)
Lower(name) == CASE name = "I1" -> "i1" [] name = "O1" -> "o1" [] name = "R1" -> "r1" [] OTHER -> name

\* does a view's criterion on the name match?
NameMatches(p, name) == CASE p \in {"", "*"} -> TRUE
                          [] p = "i*" -> name \in {"i1", "i2", "i3", "i4", "i5", "i12"}
                          [] p = "i?" -> name \in {"i1", "i2", "i3", "i4", "i5"}
                          [] p = "h?" -> name \in {"h1", "h2", "h3"}
                          [] p = "*1" -> name \in {"i1", "j1", "o1", "h1"}
                          [] OTHER -> p = name
Matches(v, i) == /\ NameMatches(v.name, i.name)
                 /\ v.kind \in {"", i.kind} /\ v.unit \in {"", i.unit} /\ v.scope \in {"", i.scope}
DefaultAgg(i) == CASE i.kind \in {"counter", "updown"} -> "sum" [] i.kind \in {"gauge", "ogauge"} -> "last"
                   [] i.kind \in {"ocounter", "oupdown"} -> "psum" [] i.kind = "hist" -> "hist:default"
Stream(v, i) == [scope |-> i.scope, name |-> IF v.to = "" THEN i.name ELSE v.to, desc |-> IF v.todesc = "" THEN i.desc ELSE v.todesc,
                 unit |-> IF v.tounit = "" THEN i.unit ELSE v.tounit, kind |-> i.kind, num |-> i.num,
                 agg |-> IF v.agg = "" THEN DefaultAgg(i) ELSE v.agg, keep |-> v.keep, lim |-> IF v.lim = 0 THEN 2000 ELSE v.lim]
DefaultStream(i) == [scope |-> i.scope, name |-> i.name, desc |-> i.desc, unit |-> i.unit, kind |-> i.kind, num |-> i.num,
                     agg |-> IF i.kind = "hist" THEN "hist:" \o i.bounds ELSE DefaultAgg(i), keep |-> {"*"}, lim |-> IF i.lim = 0 THEN 2000 ELSE i.lim]
Id(s) == <<s.scope, Lower(s.name), s.desc, s.unit, s.kind, s.num>>
MatchingViews(i) == SelectSeq(S.views, LAMBDA v : Matches(v, i))
StreamsOfInst(i) == IF i.bad THEN <<>>
                    ELSE IF MatchingViews(i) = <<>> THEN <<DefaultStream(i)>>
                    ELSE SelectSeq([k \in 1..Len(MatchingViews(i)) |-> Stream(MatchingViews(i)[k], i)], LAMBDA s : s.agg # "drop")
\* all streams, in the order they come into being: one per identity, the first definition counts
RECURSIVE AddAll(_, _, _), Build(_, _)
AddAll(acc, new, k) == IF k > Len(new) THEN acc
                      ELSE AddAll(IF \E j \in 1..Len(acc) : Id(acc[j]) = Id(new[k]) THEN acc ELSE Append(acc, new[k]), new, k + 1)
Build(m, k) == IF k = 0 THEN <<>> ELSE AddAll(Build(m, k - 1), StreamsOfInst(Inst(m[k])), 1)
TargetsIn(list, i) == {j \in 1..Len(list) : \E s \in RangeOf(StreamsOfInst(Inst(i))) : Id(s) = Id(list[j])}
AllTargets(list, m) == [i \in 1..Len(S.insts) |-> IF i \in RangeOf(m) THEN TargetsIn(list, i) ELSE {}]

Temporality(pref, kind) ==
    CASE kind = "ogauge" -> "delta"
      [] pref = "cum" -> "cum"
      [] pref = "delta" -> IF kind \in {"updown", "oupdown"} THEN "cum" ELSE "delta"
      [] pref = "low" -> IF kind \in {"counter", "hist"} THEN "delta" ELSE "cum"

------------------------------------------------------------------------------
(* Streams' contents *)
NoFun == <<>>                                       \* the function with empty domain
Fresh == [pts |-> NoFun, over |-> <<>>, rep |-> NoFun]
Put(f, k, v) == TLCEval((k :> v) @@ f)
Add(st, s, list, v) ==
    LET k == SetName(Kept(list, s.keep))
    IN IF k \in DOMAIN st.pts THEN [st EXCEPT !.pts = Put(@, k, Append(@[k], v))]
       ELSE IF k = "" \/ Cardinality(DOMAIN st.pts \ {""}) < s.lim THEN [st EXCEPT !.pts = Put(@, k, <<v>>)]
       ELSE [st EXCEPT !.over = Append(@, v)]

RECURSIVE SumSeq(_, _)
SumSeq(q, k) == IF k = 0 THEN 0 ELSE q[k] + SumSeq(q, k - 1)
Last(q) == q[Len(q)]
MinOf(q) == CHOOSE x \in RangeOf(q) : \A y \in RangeOf(q) : x <= y
MaxOf(q) == CHOOSE x \in RangeOf(q) : \A y \in RangeOf(q) : x >= y

\* histogram values and boundaries are ranks into a table of numbers that the harness knows
BoundRanks(b) == CASE b = "none" -> <<>> [] b = "b1" -> <<5>> [] b = "b2" -> <<3, 7>> [] b = "b3" -> <<2, 5, 8, 9, 10>>
                   [] b = "all" -> [k \in 1..12 |-> k]
DefaultBucketU == <<1, 2, 2, 2, 2, 2, 3, 3, 3, 5, 11, 16>>
DefaultBucketF == <<1, 1, 1, 1, 1, 2, 2, 2, 2, 2, 16, 16>>
Bucket(b, num, r) == IF b = "default" THEN (IF num = "f64" /\ S.tab = "F" THEN DefaultBucketF[r] ELSE DefaultBucketU[r])
                     ELSE 1 + Cardinality({k \in 1..Len(BoundRanks(b)) : BoundRanks(b)[k] < r})
NBuckets(b) == IF b = "default" THEN 16 ELSE Len(BoundRanks(b)) + 1
BoundsOf(agg) == CASE agg = "hist:default" -> "default" [] agg = "hist:none" -> "none" [] agg = "hist:b1" -> "b1"
                   [] agg = "hist:b2" -> "b2" [] agg = "hist:b3" -> "b3" [] agg = "hist:all" -> "all"
IsHist(s) == s.agg \notin {"sum", "psum", "last"}
HistPoint(s, q) == LET b == BoundsOf(s.agg) IN
    [c |-> Len(q), mn |-> MinOf(q), mx |-> MaxOf(q),
     b |-> [k \in 1..NBuckets(b) |-> Cardinality({j \in 1..Len(q) : Bucket(b, s.num, q[j]) = k})],
     s |-> IF s.kind \in {"updown", "oupdown", "ogauge"} THEN <<>> ELSE q]
PointOf(s, q) == IF IsHist(s) THEN HistPoint(s, q)
                 ELSE IF s.agg = "sum" THEN (IF s.kind = "hist" THEN [s |-> q] ELSE SumSeq(q, Len(q)))
                 ELSE Last(q)
DataKind(s) == IF IsHist(s) THEN "hist" ELSE IF s.agg = "last" THEN "gauge" ELSE "sum"
Mono(s) == DataKind(s) = "sum" /\ s.kind \in {"counter", "ocounter", "hist"}
StreamName(s) == s.scope \o "|" \o s.name \o "|" \o s.unit \o "|" \o s.desc \o "|" \o s.num \o "|" \o DataKind(s) \o (IF Mono(s) THEN "+" ELSE "")

\* what a stream reports; OverName stands for the overflow point
OverName == "~over"
All(st) == IF st.over = <<>> THEN st.pts ELSE Put(st.pts, OverName, st.over)
Report(s, st, pref) ==
    LET a == All(st) IN
    [k \in DOMAIN a |-> IF s.agg = "psum" /\ Temporality(pref, s.kind) = "delta"
                        THEN Last(a[k]) - (IF k \in DOMAIN st.rep THEN st.rep[k] ELSE 0)
                        ELSE PointOf(s, a[k])]
AfterCollect(s, st, pref) ==
    IF Temporality(pref, s.kind) = "delta"
    THEN [pts |-> NoFun, over |-> <<>>, rep |-> IF s.agg = "psum" THEN [k \in DOMAIN All(st) |-> Last(All(st)[k])] ELSE NoFun]
    ELSE st

------------------------------------------------------------------------------
\* pads the readers' stream tables when streams have come into being
Pad(seq, len) == [k \in 1..len |-> IF k <= Len(seq) THEN seq[k] ELSE Fresh]

Init == /\ su \in Setups /\ S = Setup(su)
        /\ made = SelectSeq([k \in 1..Len(S.insts) |-> k], LAMBDA k : ~S.insts[k].late)
        /\ ss = Build(made, Len(made)) /\ tg = AllTargets(ss, made)
        /\ rd = [r \in Readers |-> Pad(<<>>, Len(ss))]
        /\ obs = [i \in 1..Len(S.insts) |-> <<>>]
        /\ cbs = [i \in 1..Len(S.insts) |-> 0]
        /\ n = 0
        /\ hist = <<[op |-> "m_init", setup |-> S, exp |-> [ok |-> TRUE]]>>

MadeSet == RangeOf(made)
Val(kind, k) == LET b == IF k < 20 THEN 2 ^ k ELSE 1 + ((k * 37) % 101)
                IN IF kind \in {"updown", "oupdown"} /\ (k % 2) = 1 THEN 0 - b ELSE b

Record(i, list, r) ==
    /\ i \in MadeSet /\ ~Observable(Inst(i).kind)
    /\ LET k == Inst(i).kind
           histlike == \E j \in tg[i] : IsHist(ss[j])
           v == IF k = "hist" \/ histlike THEN r ELSE Val(k, n)
       IN /\ k = "hist" \/ histlike \/ SimLen > 0 \/ r = CHOOSE z \in S.hv : TRUE     \* r is not used
          /\ rd' = [x \in Readers |-> [j \in DOMAIN rd[x] |->
                        IF j \in tg[i] THEN Add(rd[x][j], ss[j], list, v) ELSE rd[x][j]]]
          /\ hist' = Append(hist, [op |-> "m_rec", i |-> i, a |-> list, v |-> v, rank |-> k = "hist" \/ histlike, exp |-> [ok |-> TRUE]])
    /\ n' = n + 1 /\ UNCHANGED <<su, S, ss, tg, made, obs, cbs>>

Create(i) ==
    /\ i \in 1..Len(S.insts) /\ i \notin MadeSet
    /\ made' = Append(made, i)
    /\ ss' = AddAll(ss, StreamsOfInst(Inst(i)), 1) /\ tg' = AllTargets(ss', made')
    /\ rd' = [x \in Readers |-> Pad(rd[x], Len(ss'))]
    /\ hist' = Append(hist, [op |-> "m_create", i |-> i, exp |-> [ok |-> TRUE]])
    /\ n' = n + 1 /\ UNCHANGED <<su, S, obs, cbs>>

\* from now on the callback of i reports these attribute sets; the values grow with time
Observe(i, lists) ==
    /\ Observable(Inst(i).kind) /\ obs[i] # lists
    /\ obs' = [obs EXCEPT ![i] = lists]
    /\ hist' = Append(hist, [op |-> "m_obs", i |-> i, lists |-> lists, exp |-> [ok |-> TRUE]])
    /\ n' = n + 1 /\ UNCHANGED <<su, S, ss, tg, made, rd, cbs>>

\* the value the callback of i reports for its k-th attribute set in this collection
ObsVal(i, k) == IF Inst(i).kind = "oupdown" /\ (n % 2) = 1 THEN 0 - (k + i) ELSE 10 * (n + 1) + k + i
Live == SelectSeq(made, LAMBDA i : Observable(Inst(i).kind) /\ tg[i] # {})
RECURSIVE Run(_, _, _, _)
Run(tab, c, k, x) ==          \* callback c of Live, attribute list k, into table tab of one reader
    IF c > Len(Live) THEN tab
    ELSE LET i == Live[c] IN
         IF k > Len(obs[i]) THEN Run(tab, c + 1, 1, x)
         ELSE Run(TLCEval([j \in DOMAIN tab |-> IF j \in tg[i] THEN Add(tab[j], ss[j], obs[i][k], ObsVal(i, k)) ELSE tab[j]]),
                  c, k + 1, x)
\* the attribute sets observed by stream j in this collection
Seen(j) == {SetName(Kept(obs[i][k], ss[j].keep)) : <<i, k>> \in {<<a, b>> \in MadeSet \X (1..3) :
                Observable(Inst(a).kind) /\ j \in tg[a] /\ b <= Len(obs[a])}}
\* (LET definitions are evaluated once only inside an expression, hence the detour over Collected)
Collected(r) ==
       LET tab == TLCEval(Run(rd[r], 1, 1, r))
           pref == S.readers[r]
           rep == TLCEval([j \in DOMAIN tab |-> Report(ss[j], tab[j], pref)])
           nms == TLCEval([j \in DOMAIN tab |-> StreamName(ss[j])])
           \* sums that are reported although nothing observed them now (left open, see DESIGN.md)
           stale == TLCEval([j \in DOMAIN tab |-> IF ss[j].agg = "psum" /\ Temporality(pref, ss[j].kind) = "cum"
                                                 THEN DOMAIN rep[j] \ Seen(j) ELSE {}])
           must == TLCEval([j \in DOMAIN tab |-> [k \in DOMAIN rep[j] \ stale[j] |-> rep[j][k]]])
           may == TLCEval([j \in DOMAIN tab |-> [k \in stale[j] |-> rep[j][k]]])
           some == {j \in DOMAIN tab : DOMAIN must[j] # {}}
           some2 == {j \in DOMAIN tab : stale[j] # {}}
           ofName(x, set) == CHOOSE j \in set : nms[j] = x
       IN [after |-> [j \in DOMAIN tab |-> AfterCollect(ss[j], tab[j], pref)],
           obs |-> [c \in 1..Len(Live) |-> [i |-> Live[c], vals |-> [k \in 1..Len(obs[Live[c]]) |-> ObsVal(Live[c], k)]]],
           win |-> [x \in {nms[j] : j \in DOMAIN tab} |-> LET j == ofName(x, DOMAIN tab) IN Temporality(pref, ss[j].kind)],
           may |-> [x \in {nms[j] : j \in some2} |-> may[ofName(x, some2)]],
           streams |-> [x \in {nms[j] : j \in some} |->
                            LET j == ofName(x, some) IN [kind |-> DataKind(ss[j]), mono |-> Mono(ss[j]),
                                temp |-> IF DataKind(ss[j]) = "gauge" THEN "" ELSE Temporality(pref, ss[j].kind), points |-> must[j]]]]
Collect(r, reuse) ==
    /\ \E z \in {Collected(r)} :
          /\ rd' = [rd EXCEPT ![r] = z.after]
          /\ cbs' = [i \in DOMAIN cbs |-> IF i \in RangeOf(Live) THEN cbs[i] + 1 ELSE cbs[i]]
          /\ hist' = Append(hist, [op |-> "m_collect", r |-> r, reuse |-> reuse, obs |-> z.obs, win |-> z.win, may |-> z.may,
                                   exp |-> [streams |-> z.streams, cbs |-> cbs', time |-> "ok"]])
    /\ n' = n + 1 /\ UNCHANGED <<su, S, ss, tg, made, obs>>

Next == /\ n < MaxOps
        /\ \/ \E i \in Pick(MadeSet), a \in Pick(S.atts), r \in Pick(S.hv) :
                Record(i, a, r)
           \/ \E i \in Pick(1..Len(S.insts)) : Create(i)
           \/ \E i \in Pick(1..Len(S.insts)), o \in Pick(S.obs) : Observe(i, o)
           \/ \E r \in Pick(Readers), ru \in Pick(IF SimLen > 0 THEN {TRUE, FALSE} ELSE {TRUE}) : Collect(r, ru)
NextSim == Len(hist) < SimLen /\ (Next \/ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* What the specification itself guarantees (checked by TLC). *)
\* M03: no stream tracks more sets than its limit allows, and overflow only starts at the limit
Capped == \A r \in Readers : \A j \in DOMAIN rd[r] :
    LET st == rd[r][j] s == ss[j] c == Cardinality(DOMAIN st.pts \ {""})
    IN c <= s.lim /\ (st.over # <<>> => c = s.lim)
\* M09: identities are unique, and every valid instrument that no view drops has a stream
Distinct == \A j, k \in DOMAIN ss : Id(ss[j]) = Id(ss[k]) => j = k
Named == \A j, k \in DOMAIN ss : StreamName(ss[j]) = StreamName(ss[k]) => j = k
Served == \A i \in MadeSet : (~Inst(i).bad /\ MatchingViews(Inst(i)) = <<>>) => Cardinality(tg[i]) = 1
\* M10: streams of cumulative readers that reset nothing agree with one another
Agree == \A r1, r2 \in Readers : \A j \in DOMAIN rd[r1] :
    (~Observable(ss[j].kind) /\ Temporality(S.readers[r1], ss[j].kind) = "cum"
       /\ Temporality(S.readers[r2], ss[j].kind) = "cum") => rd[r1][j] = rd[r2][j]
Inv == Capped /\ Distinct /\ Named /\ Served /\ Agree
EmitT == Emit(hist')
EmitSim == Len(hist') = SimLen => Emit(hist')
=============================================================================
