------------------------------- MODULE Config -------------------------------
(* Effective configuration (property C01): what is set in code wins over its *)
(* environment variable, which wins over the built-in default; values that   *)
(* do not parse, or are not supported, are ignored.  Code calls may come in  *)
(* any order, the last one for a setting counts.  A batch is never larger    *)
(* than the queue.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Cover
CONSTANTS Part,    \* which family of settings
          Max,     \* number of code calls
          Wide     \* more values
VARIABLES hist
vars == <<hist>>
(* The value of a variable: its text, and what it means (-1: nothing) *)
V(t, v) == [text |-> t, v |-> v]
Unset == V("<unset>", -1)
Bad == IF Wide THEN {V("junk", -1), V("-1", -1), V("", -1), V("1.5", -1), V(" 4", -1)} ELSE {V("junk", -1), V("-4", -1)}
Call(s, v) == [s |-> s, v |-> v]
Seqs(S) == UNION {[1..k -> S] : k \in 0..Max}
RECURSIVE Last(_, _, _)    \* the last call for setting s, else d
Last(l, s, d) == IF l = <<>> THEN d ELSE IF l[Len(l)].s = s THEN l[Len(l)].v ELSE Last(SubSeq(l, 1, Len(l) - 1), s, d)
Eff(env, code, s, def) == Last(code, s, IF env.v >= 0 THEN env.v ELSE def)
Min(x, y) == IF x < y THEN x ELSE y
Case(o, e) == hist' = <<o @@ [exp |-> e]>>

(*---- batching: sizes (threads and async), delays and timeouts (async) ----*)
Batch ==
  \E kind \in {"span", "log", "aspan", "alog"}, q \in {Unset, V("3", 3)} \cup (IF Wide THEN Bad ELSE {V("junk", -1)}),
     b \in {Unset, V("2", 2), V("5", 5)} \cup (IF Wide THEN Bad ELSE {V("-4", -1)}),
     code \in Seqs({Call("q", 2), Call("q", 6), Call("b", 1), Call("b", 4), Call("b", 9)}) :
    LET eq == Eff(q, code, "q", 2048)  eb == Min(Eff(b, code, "b", 512), eq)
    IN Case([op |-> "batch", kind |-> kind, env |-> [q |-> q.text, b |-> b.text], code |-> code],
            [queue |-> eq, batch |-> eb])
Delays ==
  \E kind \in {"aspan", "alog"}, d \in {Unset, V("1234", 1234)} \cup Bad, t \in {Unset, V("4321", 4321)} \cup Bad,
     code \in Seqs({Call("d", 70001), Call("d", 70002), Call("t", 80001), Call("t", 80002)}) :
    Case([op |-> "delays", kind |-> kind, env |-> [d |-> d.text, t |-> t.text], code |-> code],
         [delay |-> Eff(d, code, "d", IF kind = "aspan" THEN 5000 ELSE 1000), timeout |-> Eff(t, code, "t", 30000)])
Reader ==
  \E d \in {Unset, V("1234", 1234)} \cup Bad, t \in {Unset, V("4321", 4321)} \cup Bad,
     code \in Seqs({Call("d", 70001), Call("d", 70002), Call("t", 80001), Call("t", 80002)}) :
    Case([op |-> "delays", kind |-> "areader", env |-> [d |-> d.text, t |-> t.text], code |-> code],
         [delay |-> Eff(d, code, "d", 60000), timeout |-> Eff(t, code, "t", 30000)])
\* with threads: does the timer export soon (a few ms), or not at all for a while
Timers ==
  \E kind \in {"span", "log", "reader"}, d \in {Unset, V("4", 4)} \cup {V("junk", -1), V("-4", -1)},
     code \in Seqs({Call("d", 5), Call("d", 3600000)}) :
    Case([op |-> "timer", kind |-> kind, env |-> [d |-> d.text], code |-> code],
         [soon |-> Eff(d, code, "d", 5000) < 10])
(*---- span limits ----*)
All == Call("all", 5)
LimitOf(l, s, d) ==   \* the last call that sets s: its own, or the one that sets them all
  LET idx == {k \in 1..Len(l) : l[k].s \in {s, "all"}} IN
  IF idx = {} THEN d ELSE l[CHOOSE k \in idx : \A m \in idx : m <= k].v
Limits ==
  \E a \in {Unset, V("2", 2), V("0", 0)} \cup Bad, e \in {Unset, V("3", 3)} \cup Bad, k \in {Unset, V("1", 1)} \cup Bad,
     code \in Seqs({Call("a", 7), Call("e", 8), Call("l", 9), Call("ea", 3), Call("la", 4), All}) :
    LET env(x) == IF x.v >= 0 THEN x.v ELSE 128 IN
    Case([op |-> "limits", env |-> [a |-> a.text, e |-> e.text, l |-> k.text], code |-> code],
         [a |-> LimitOf(code, "a", env(a)), e |-> LimitOf(code, "e", env(e)), l |-> LimitOf(code, "l", env(k)),
          ea |-> LimitOf(code, "ea", 128), la |-> LimitOf(code, "la", 128)])
(*---- sampler: does it sample a root with a low trace id, one with a high trace id, ----*)
(*---- children (low, high) of a sampled parent, and of an unsampled one            ----*)
On == <<TRUE, TRUE>>
Off == <<FALSE, FALSE>>
Half == <<TRUE, FALSE>>
Plain(x) == [root |-> x, child |-> x, orphan |-> x]
Parent(x) == [root |-> x, child |-> On, orphan |-> Off]
Ratio(arg) == CASE arg = "0.0" -> Off [] arg = "0.5" -> Half [] OTHER -> On
FromEnv(s, arg) ==
  CASE s = "always_on" -> Plain(On) [] s = "always_off" -> Plain(Off)
    [] s = "traceidratio" -> Plain(Ratio(arg)) [] s = "parentbased_traceidratio" -> Parent(Ratio(arg))
    [] s = "parentbased_always_off" -> Parent(Off)
    [] OTHER -> Parent(On)
Samplers ==
  \E s \in {"<unset>", "always_on", "always_off", "traceidratio", "parentbased_always_on", "parentbased_always_off",
            "parentbased_traceidratio", "jaeger_remote", "parentbased_jaeger_remote", "xray", "junk", "Always_Off", ""},
     arg \in {"<unset>", "0.0", "0.5", "1.0", "junk", ""}, code \in Seqs({Call("s", "on"), Call("s", "off"), Call("s", "poff")}) :
    Case([op |-> "sampler", env |-> [s |-> s, arg |-> arg], code |-> code],
         CASE Last(code, "s", "") = "on" -> Plain(On) [] Last(code, "s", "") = "off" -> Plain(Off)
           [] Last(code, "s", "") = "poff" -> Parent(Off) [] OTHER -> FromEnv(s, arg))
Init == hist = <<>>
Next == hist = <<>> /\ CASE Part = "batch" -> Batch [] Part = "delays" -> (Delays \/ Reader) [] Part = "timers" -> Timers
                         [] Part = "limits" -> Limits [] Part = "sampler" -> Samplers
(* Said without the definitions above *)
NeverLarger == Part = "batch" => hist[1].exp.batch <= hist[1].exp.queue
CodeWins == Part \in {"batch", "delays"} => \A k \in 1..Len(hist[1].code) :
  LET c == hist[1].code[k] IN
  (\A m \in (k + 1)..Len(hist[1].code) : hist[1].code[m].s # c.s)
    => CASE c.s = "q" -> hist[1].exp.queue = c.v [] c.s = "d" -> hist[1].exp.delay = c.v
         [] c.s = "t" -> hist[1].exp.timeout = c.v [] OTHER -> hist[1].exp.batch \in {c.v, hist[1].exp.queue}
Inv == hist # <<>> => NeverLarger /\ CodeWins
EmitT == Emit(hist')
=============================================================================
