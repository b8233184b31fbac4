------------------------------ MODULE Appenders ------------------------------
(* The log bridges (properties G01, G02): what the processors of a logger     *)
(* provider receive for each record of the `log` crate and each event of      *)
(* `tracing`.  Every value is a tree; Data says what a tree becomes.  Who     *)
(* gets a record depends on what the processors ask for (when the bridges are *)
(* built to ask them), on suppression, and it carries the identity of the     *)
(* span it was logged in: that of the `tracing` span if there is one, else    *)
(* that of the active context.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Cover
CONSTANTS Rich,            \* all features of the bridges, or the default ones
          Src,             \* which bridge is fed: "log", "event"
          Part, SimLen, MaxCtx, Pick(_)
VARIABLES procs, ctx, spans, made, hist
vars == <<procs, ctx, spans, made, hist>>

(*---- values ----*)
L(k, x, t, o) == [k |-> k, x |-> x, out |-> <<t, o>>]
Int64 == {"0", "-1", "9223372036854775807", "-9223372036854775808"}
Ints == {L("i8", "-128", "i", "-128"), L("i16", "-32768", "i", "-32768"), L("i32", "2147483647", "i", "2147483647"),
         L("u8", "255", "i", "255"), L("u16", "65535", "i", "65535"), L("u32", "4294967295", "i", "4294967295")}
        \cup {L("i64", x, "i", x) : x \in Int64} \cup {L("i128", x, "i", x) : x \in Int64}
        \cup {L(k, "9223372036854775807", "i", "9223372036854775807") : k \in {"u64", "u128"}}
        \cup {L(k, "9223372036854775808", "s", "9223372036854775808") : k \in {"u64", "u128", "i128"}}
        \cup {L("u64", "18446744073709551615", "s", "18446744073709551615"),
              L("u128", "340282366920938463463374607431768211455", "s", "340282366920938463463374607431768211455"),
              L("i128", "-9223372036854775809", "s", "-9223372036854775809")}
Basics == Ints \cup {L("bool", "true", "b", "true"), L("bool", "false", "b", "false"),
         L("f64", "1.5", "d", "1.5"), L("f64", "-0.0", "d", "-0.0"), L("f64", "inf", "d", "inf"), L("f64", "NaN", "d", "NaN"),
         L("f64", "1e300", "d", "1e300"), L("f32", "0.5", "d", "0.5"), L("f32", "0.1", "d", "0.10000000149011612"),
         L("str", "", "s", ""), L("str", "42", "s", "42"), L("str", "true", "s", "true"), L("str", "line\nquote\"", "s", "line\nquote\"")}
Char == L("char", "q", "s", "q")
Shown == {L("dbg", "x", "s", "D<x>"), L("disp", "", "s", "S<>")}
Gone == {[k |-> "none", out |-> <<>>], [k |-> "unit", out |-> <<>>]}
Bytes == {L("bytes", "", "y", ""), L("bytes", "hi", "y", "6869")}
Variant == [k |-> "uvar", out |-> <<"s", "Unit">>]
Leaves == Basics \cup Bytes \cup Gone \cup {Char, Variant}
Few == {L("i8", "-128", "i", "-128"), L("u64", "9223372036854775808", "s", "9223372036854775808"), L("str", "42", "s", "42")} \cup Gone \cup {Variant}
\* composite values: the items, and how they are put together
Wraps == {"some", "nstruct", "nvar"}
Groups == {"seq", "tup", "tstruct", "tvar", "map", "map2", "struct", "svar"}
Keys == <<"a", "b", "z key">>
IsLeaf(v) == "out" \in DOMAIN v
RECURSIVE Data(_)
Present(items) == SelectSeq([i \in 1..Len(items) |-> <<Keys[i], items[i]>>], LAMBDA p : p[2] # <<>>)
List(items) == LET p == Present(items) IN <<"l", [i \in 1..Len(p) |-> p[i][2]]>>
Map(items) == <<"m", Present(items)>>
Data(v) == IF IsLeaf(v) THEN v.out ELSE
   LET items == TLCEval([i \in 1..Len(v.items) |-> Data(v.items[i])])
   IN CASE v.k \in {"some", "nstruct"} -> items[1]
        [] v.k = "nvar" -> <<"m", SelectSeq(<<<<"Var", items[1]>>>>, LAMBDA p : p[2] # <<>>)>>
        [] v.k \in {"seq", "tup", "tstruct"} -> List(items)
        [] v.k = "tvar" -> <<"m", <<<<"Var", List(items)>>>>>>
        [] v.k \in {"map", "map2", "struct"} -> Map(items)
        [] v.k = "svar" -> <<"m", <<<<"Var", Map(items)>>>>>>
Node(k, items) == [k |-> k, items |-> items, serde |-> TRUE]
\* every way to put together items of a set; random ones of some depth
Nodes(S, T) == {Node(k, <<a>>) : k \in Wraps, a \in S} \cup {Node(k, <<>>) : k \in Groups}
               \cup {Node(k, <<a>>) : k \in Groups, a \in S} \cup {Node(k, <<a, b>>) : k \in Groups, a \in S, b \in T}
OneOf(S) == RandomElement(S)
RECURSIVE RandomTree(_)
RandomTree(d) == IF d = 0 \/ OneOf(1..4) = 1 THEN OneOf(Leaves)
                 ELSE IF OneOf(1..3) = 1 THEN Node(OneOf(Wraps), TLCEval(<<RandomTree(d - 1)>>))
                 ELSE LET m == OneOf(0..3) IN Node(OneOf(Groups), TLCEval([i \in 1..m |-> RandomTree(d - 1)]))
\* values a `log` record can be given directly, and through serde
Null == [k |-> "null", out |-> IF Rich THEN <<>> ELSE <<"s", "None">>]
Direct == Basics \cup Shown \cup {Char, Null, L("err", "x", "s", "S<x>")}
\* values a field of a `tracing` event can have
Absent == [k |-> "absent", out |-> <<>>]
Fields == Basics \cup Shown \cup Bytes \cup {Absent, [k |-> "none", out |-> <<>>], L("some", "-7", "i", "-7"), L("lit", "lit", "s", "lit"),
          L("wrap", "18446744073709551615", "s", "18446744073709551615"), L("err", "x", "e", "S<x>"), L("err2", "", "e", "S<>")}
Messages == {Absent, L("str", "some text", "s", "some text"), L("str", "", "s", ""), L("lit", "lit", "s", "lit"),
             L("dbg", "x", "s", "D<x>"), L("disp", "x", "s", "S<x>")}

(*---- records ----*)
Levels == {"TRACE", "DEBUG", "INFO", "WARN", "ERROR"}
Number == [TRACE |-> 1, DEBUG |-> 5, INFO |-> 9, WARN |-> 13, ERROR |-> 17]
Cur == IF ctx = <<>> THEN [span |-> "none", flags |-> "none", sup |-> FALSE] ELSE ctx[Len(ctx)]
Tc == IF spans # <<>> THEN <<spans[Len(spans)], "none">> ELSE <<Cur.span, Cur.flags>>
TcLog == <<Cur.span, Cur.flags>>
Accepts(p, l, target, name) == Number[l] >= p.min /\ target # p.target /\ name # p.name
Wanted(l, target, name) == ~Rich \/ (~Cur.sup /\ \E i \in 1..Len(procs) : Accepts(procs[i], l, target, name))
Rec(l, target, ev, body, attrs, tc) ==
    [sevn |-> Number[l], sevt |-> l, target |-> target, ev |-> ev, body |-> body, attrs |-> attrs, scope |-> "",
     stamps |-> <<FALSE, TRUE>>, tc |-> tc]
\* every processor gets the record, or none does
Delivered(on, r) == [i \in 1..Len(procs) |-> IF on /\ ~Cur.sup THEN <<r>> ELSE <<>>]
Attrs(kvs) == SelectSeq([i \in 1..Len(kvs) |-> <<kvs[i].key, Data(kvs[i].v)>>], LAMBDA p : p[2] # <<>>)
Push(step) == hist' = Append(hist, step)

Log(l, target, body, kvs) ==
    /\ Src = "log"
    /\ Push([op |-> "app_log", level |-> l, target |-> target, body |-> body, kvs |-> kvs,
             exp |-> Delivered(Wanted(l, target, "<none>"), Rec(l, target, "<none>", <<"s", body>>, Attrs(kvs), TcLog))])
    /\ UNCHANGED <<procs, ctx, spans, made>>
Enabled(l, target) ==
    /\ Src = "log"
    /\ Push([op |-> "app_enabled", level |-> l, target |-> target, exp |-> Wanted(l, target, "<none>")])
    /\ UNCHANGED <<procs, ctx, spans, made>>
\* an error is recorded under the name the conventions give it, other values under the field's
Field(n, v) == IF v.out = <<>> THEN <<>>
               ELSE IF v.out[1] = "e" THEN <<<<"exception.message", <<"s", v.out[2]>>>>>> ELSE <<<<n, v.out>>>>
Event(l, target, name, order, m, a, b, c) ==
    LET body == IF order = "text" THEN <<"s", "text 7">> ELSE IF m.out = <<>> THEN <<"none", "">> ELSE m.out
    IN /\ Src = "event"
       /\ Push([op |-> "app_event", level |-> l, target |-> target, name |-> name, order |-> order, message |-> m, a |-> a, b |-> b, c |-> c,
                exp |-> Delivered(Wanted(l, target, name), Rec(l, target, name, body, Field("a", a) \o Field("b", b) \o Field("c.d", c), Tc))])
       /\ UNCHANGED <<procs, ctx, spans, made>>

Attach(k) == /\ Len(ctx) < MaxCtx
             /\ LET n == Len(ctx) + 1 IN
                /\ ctx' = Append(ctx, CASE k = "sup" -> [Cur EXCEPT !.sup = TRUE]
                                        [] k = "fresh" -> [span |-> "none", flags |-> "none", sup |-> FALSE]
                                        [] OTHER -> [Cur EXCEPT !.span = "o" \o ToString(n), !.flags = IF k = "on" THEN "1" ELSE "0"])
                /\ Push([op |-> "app_attach", what |-> k, k |-> n, exp |-> [ok |-> TRUE]])
             /\ UNCHANGED <<procs, spans, made>>
Detach == /\ ctx # <<>> /\ ctx' = SubSeq(ctx, 1, Len(ctx) - 1)
          /\ Push([op |-> "app_detach", exp |-> [ok |-> TRUE]])
          /\ UNCHANGED <<procs, spans, made>>
\* a `tracing` span of its own (outside any trace), or a child of the current one
Enter(root) == /\ Rich /\ Src = "event" /\ (root => ctx = <<>>) /\ Len(spans) < MaxCtx /\ made < 9
               /\ (root \/ spans # <<>>)
               /\ spans' = Append(spans, "t" \o ToString(made + 1)) /\ made' = made + 1
               /\ Push([op |-> "app_tspan", root |-> root, exp |-> [ok |-> TRUE]])
               /\ UNCHANGED <<procs, ctx>>
Close == /\ spans # <<>> /\ spans' = SubSeq(spans, 1, Len(spans) - 1)
         /\ Push([op |-> "app_tclose", exp |-> [exported |-> TRUE]])
         /\ UNCHANGED <<procs, ctx, made>>

(*---- what is explored ----*)
All == [kind |-> "raw", min |-> 0, target |-> "-", name |-> "-"]
Procs == {<<All>>} \cup {<<[kind |-> k, min |-> m, target |-> t, name |-> n]>> : k \in {"raw", "simple"}, m \in {0, 5, 9, 10, 17, 18}, t \in {"-", "t.one"}, n \in {"-", "n1"}}
PairsOf == {<<[kind |-> k, min |-> m, target |-> "t.one", name |-> "n1"], [kind |-> j, min |-> 10, target |-> t, name |-> "-"]>>
            : k \in {"raw", "simple"}, j \in {"raw", "simple"}, m \in {5, 17}, t \in {"-", "t.two"}}
Pipelines == IF Part = "flow" THEN Procs \cup PairsOf ELSE {<<All>>}
Setup == [op |-> "app_init", procs |-> procs, exp |-> [ok |-> TRUE]]
Init == /\ procs \in Pipelines /\ ctx = <<>> /\ spans = <<>> /\ made = 0 /\ hist = <<Setup>>
Kv(k, v) == [key |-> k, v |-> v]
Targets == {"t.one", "t.two"}
OneLog(kvs) == Log("INFO", "a::target", "text", kvs)
Serde(v) == IF IsLeaf(v) THEN v @@ ("serde" :> TRUE) ELSE v
LogSets == {<<Kv("k", v)>> : v \in Direct} \cup {<<Kv("k", a), Kv("k", b), Kv("", a)>> : a, b \in {L("i8", "-128", "i", "-128"), L("str", "", "s", ""), Null}}
Once == Len(hist) = 1
LogValues == Once /\ \E kvs \in LogSets : OneLog(kvs)
SerdeValues == Once /\ \E v \in {Serde(x) : x \in Leaves} \cup Nodes(Leaves, Few) : OneLog(<<Kv("k", v), Kv("after", L("bool", "true", "b", "true"))>>)
SerdeDeep == Once /\ \E v \in Nodes(Nodes(Few, {Variant}), {Variant}) : OneLog(<<Kv("k", v)>>)
SerdeRandom == Once /\ \E n \in {OneOf(0..3)} : OneLog([i \in 1..n |-> Kv("k" \o ToString(i), Serde(RandomTree(4)))])
LogTexts == Once /\ \E l \in Levels, b \in {"", "some {} text", "line\nline"}, t \in {"", "a::b", "t.one"} : Log(l, t, b, <<>>)
EventValues == Once /\ \E a \in Fields, o \in {"first", "mid", "text"}, m \in {Absent, L("str", "some text", "s", "some text")} :
                  Event("WARN", "t.one", "n1", o, IF o = "text" THEN Absent ELSE m, a, Absent, a)
EventTexts == Once /\ \E l \in Levels, t \in Targets, nm \in {"n1", "n2"}, o \in {"first", "mid"}, m \in Messages : Event(l, t, nm, o, m, Absent, Absent, Absent)
EventRandom == Once /\ Event(OneOf(Levels), OneOf(Targets), OneOf({"n1", "n2"}), OneOf({"first", "mid"}), OneOf(Messages), OneOf(Fields), OneOf(Fields), OneOf(Fields))
Nothing == L("bool", "true", "b", "true")
Filters == Once /\ \E l \in Levels, t \in Targets :
              \/ Log(l, t, "x", <<>>) \/ Enabled(l, t)
              \/ \E n \in {"n1", "n2"} : Event(l, t, n, "first", Absent, Nothing, Absent, Absent)
\* random walks through contexts, spans and records
Walk == /\ Len(hist) < SimLen
        /\ \/ \E l \in Pick(Levels), t \in Pick(Targets) : Log(l, t, "x", <<Kv("k", Nothing)>>)
           \/ \E l \in Pick(Levels), t \in Pick(Targets) : Enabled(l, t)
           \/ \E l \in Pick(Levels), t \in Pick(Targets), n \in Pick({"n1", "n2"}) : Event(l, t, n, "first", Absent, Nothing, Absent, Absent)
           \/ \E k \in Pick({"on", "off", "sup", "fresh"}) : Attach(k)
           \/ Detach
           \/ \E r \in Pick(BOOLEAN) : Enter(r)
           \/ Close
\* all short ones, of one pipeline
Short == /\ Len(hist) < SimLen
         /\ \/ Log("INFO", "t.one", "x", <<>>) \/ Event("INFO", "t.one", "n1", "first", Absent, Nothing, Absent, Absent)
            \/ \E k \in {"on", "off", "sup", "fresh"} : Attach(k)
            \/ Detach \/ Close \/ \E r \in BOOLEAN : Enter(r)

Inv == \A i \in 1..Len(hist) : hist[i].op \in {"app_log", "app_event"} =>
         \A j, k \in 1..Len(hist[i].exp) : hist[i].exp[j] = hist[i].exp[k]
EmitT == Emit(hist')
EmitSim == Len(hist') = SimLen => Emit(hist')
=============================================================================
