----------------------------- MODULE JaegerRemote -----------------------------
(* The Jaeger remote sampler (property T07): what it asks for and when, which *)
(* strategy is in force after which answers, and which traces it samples.     *)
(* Time is in quarters of a second; a bucket holds quarters of a trace.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Cover
CONSTANTS SimLen, Quarters
VARIABLES conf,     \* what was built
          handles,  \* how many copies of the sampler there are
          task,     \* "off", "waiting" (for the interval), "asking"
          strat, clock, hist
vars == <<conf, handles, task, strat, clock, hist>>
NotSet == "<unset>"
Push(step) == hist' = Append(hist, step)
F(p, n) == [per |-> p, n |-> n]

(*---- configuration ----*)
\* [as given, as a URL up to the query; "" when it cannot be used]
U(t, url) == [t |-> t, url |-> url]
DefaultUrl == "http://localhost:5778/sampling?"
Endpoints == {U(NotSet, DefaultUrl), U("", ""), U("http://host:1/s", "http://host:1/s?"), U("http://host:1", "http://host:1/?"),
              U("https://host/a/b?x=1", "https://host/a/b?x=1&"), U("not an address", DefaultUrl)}
Services == {[t |-> "", q |-> ""], [t |-> "svc", q |-> "service=svc"], [t |-> "a b&c=d", q |-> "service=a+b%26c%3Dd"]}
Defaults == {"on", "off", "half", "parent"}
Usable(e, s) == e.url # "" /\ s.q # ""
Nothing == [url |-> "", bucket |-> 0, default |-> "off", interval |-> 0]
Build(e, s, d, b, n) ==
    LET ok == Usable(e, s) IN
    /\ conf' = IF ok THEN [url |-> e.url \o s.q, bucket |-> IF b < 0 THEN 100 ELSE b, default |-> d, interval |-> n] ELSE Nothing
    /\ handles' = IF ok THEN 1 ELSE 0
    /\ task' = IF ok THEN "waiting" ELSE "off"
    /\ UNCHANGED <<strat, clock>>
    /\ Push([op |-> "jr_build", endpoint |-> e.t, service |-> s.t, default |-> d, bucket |-> b, interval |-> n, exp |-> [built |-> ok, sent |-> 0]])

(*---- answers ----*)
\* probabilities are in quarters, outside [0, 4] they mean its nearer end
Prob(p) == CASE p = -4 -> "-1.0" [] p = 0 -> "0.0" [] p = 1 -> "0.25" [] p = 2 -> "0.5" [] p = 3 -> "0.75" [] p = 4 -> "1.0" [] OTHER -> "2.0"
Probs == {-4, 0, 1, 2, 3, 4, 8}
Type(t) == "\"strategyType\":\"" \o t \o "\""
PField(p) == "\"probabilisticSampling\":{\"samplingRate\":" \o Prob(p) \o "}"
RField(r) == "\"rateLimitingSampling\":{\"maxTracesPerSecond\":" \o ToString(r) \o "}"
OpJson(o) == "{\"operation\":\"" \o o.name \o "\"," \o PField(o.p) \o "}"
RECURSIVE Join(_)
Join(l) == IF l = <<>> THEN "" ELSE IF Len(l) = 1 THEN OpJson(l[1]) ELSE OpJson(l[1]) \o "," \o Join(Tail(l))
OField(d, ops) == "\"operationSampling\":{\"defaultSamplingProbability\":" \o Prob(d) \o ",\"defaultLowerBoundTracesPerSecond\":1.5,"
                  \o "\"defaultUpperBoundTracesPerSecond\":0,\"perOperationStrategies\":[" \o Join(ops) \o "]}"
NoStrat == [t |-> "none"]
P(p) == [t |-> "prob", p |-> p]
R(r) == [t |-> "rate", r |-> r]
O(d, ops) == [t |-> "ops", d |-> d, ops |-> ops]
Body(s) == CASE s.t = "prob" -> "{" \o Type("PROBABILISTIC") \o "," \o PField(s.p) \o "}"
             [] s.t = "rate" -> "{" \o Type("RATELIMITING") \o "," \o RField(s.r) \o ",\"more\":[1]}"
             [] OTHER -> "{" \o Type("PROBABILISTIC") \o "," \o OField(s.d, s.ops) \o ",\"probabilisticSampling\":null}"
One(n, p) == [name |-> n, p |-> p]
OpLists == {<<>>, <<One("a", 4)>>, <<One("a", 0), One("b", 4)>>, <<One("a", 1), One("a", 3)>>, <<One("", 2), One("b", 3)>>}
Strategies == {P(p) : p \in Probs} \cup {R(r) : r \in {0, 1, 2, 4}} \cup {O(d, l) : d \in {0, 2, 4}, l \in OpLists}
Good(s) == [status |-> "200", body |-> Body(s), s |-> s]
\* several at once: operations before rates before probabilities
Both == {[status |-> "200", body |-> "{" \o Type("PROBABILISTIC") \o "," \o PField(4) \o "," \o RField(2) \o "}", s |-> [t |-> "rate", r |-> 2, fresh |-> TRUE]],
         [status |-> "200", body |-> "{" \o Type("RATELIMITING") \o "," \o RField(4) \o "," \o OField(4, <<One("a", 0)>>) \o "}", s |-> O(4, <<One("a", 0)>>)],
         [status |-> "200", body |-> "{" \o PField(0) \o "," \o Type("PROBABILISTIC") \o "," \o OField(4, <<One("a", 2)>>) \o "}", s |-> O(4, <<One("a", 2)>>)]}
Bad == {[status |-> x, body |-> Body(P(4)), s |-> NoStrat] : x \in {"lost", "204", "404", "500", "302", "202"}}
       \cup {[status |-> "200", body |-> x, s |-> NoStrat] :
               x \in {"", "{}", "not json", "{" \o Type("PROBABILISTIC") \o "}", "{" \o Type("PROBABILISTIC") \o ",\"probabilisticSampling\":{}}",
                      "{" \o Type("OTHER") \o "," \o PField(4) \o "}", "{" \o Type("PROBABILISTIC") \o "," \o PField(4) \o ",",
                      "{" \o Type("RATELIMITING") \o ",\"rateLimitingSampling\":null}"}}
\* a bucket starts full and keeps what it holds when only the rate changes
Bucket(s) == [t |-> "rate", r |-> s.r, level |-> 4 * conf.bucket, last |-> clock]
After(a) == CASE a.s.t = "none" -> strat
              [] a.s.t = "rate" -> IF strat.t = "rate" /\ "fresh" \notin DOMAIN a.s THEN [strat EXCEPT !.r = a.s.r] ELSE Bucket(a.s)
              [] OTHER -> a.s
Due ==
    /\ task = "waiting"
    /\ task' = IF handles > 0 THEN "asking" ELSE "off"
    /\ UNCHANGED <<conf, handles, strat, clock>>
    /\ Push([op |-> "jr_due", exp |-> [sent |-> IF handles > 0 THEN <<conf.url>> ELSE <<>>, get |-> TRUE, fetching |-> handles > 0, interval |-> conf.interval]])
\* changing the rate says nothing of the time before: asked for right after a decision only
Plain(a) == a.s.t = "rate" /\ strat.t = "rate" /\ a.s.r # strat.r => clock = strat.last
Answer(a) ==
    /\ task = "asking" /\ (handles > 0 => Plain(a))
    /\ task' = IF handles > 0 THEN "waiting" ELSE "off"
    /\ strat' = IF handles > 0 THEN After(a) ELSE strat
    /\ UNCHANGED <<conf, handles, clock>>
    /\ Push([op |-> "jr_answer", status |-> a.status, body |-> a.body, exp |-> [sent |-> 0, fetching |-> handles > 0]])

(*---- decisions ----*)
\* the trace ids: which quarter of their range their low half is in, at its ends
Id(h, q) == [t |-> h, q |-> q]
Ids == {Id("00000000000000010000000000000000", 0), Id("ffffffffffffffff0000000000000001", 0), Id("00000000000000013fffffffffffffff", 0),
        Id("00000000000000004000000000000000", 1), Id("ffffffffffffffff7fffffffffffffff", 1),
        Id("00000000000000018000000000000000", 2), Id("0000000000000001bfffffffffffffff", 2),
        Id("0000000000000000c000000000000000", 3), Id("ffffffffffffffffffffffffffffffff", 3)}
Names == {"a", "b", "", " a", "A"}
Parents == {"none", "empty", "sampled", "unsampled"}
State(p) == CASE p = "sampled" -> "p=1" [] p = "unsampled" -> "p=2" [] OTHER -> ""
HasParent(p) == p \in {"sampled", "unsampled"}
ByProb(p, q) == q < p
\* the last strategy given for an operation
ProbOf(name) == LET is == {i \in 1..Len(strat.ops) : strat.ops[i].name = name} IN
                IF is = {} THEN strat.d ELSE strat.ops[CHOOSE i \in is : \A j \in is : j <= i].p
Min(a, b) == IF a < b THEN a ELSE b
Filled == Min(strat.level + (clock - strat.last) * strat.r, 4 * conf.bucket)
\* the sampler itself: [sampled, strategy afterwards]
Decide(name, q, p) ==
    CASE strat.t = "none" -> [s |-> CASE conf.default = "on" -> TRUE [] conf.default = "half" -> ByProb(2, q)
                                      [] conf.default = "parent" -> p = "sampled" [] OTHER -> FALSE, st |-> strat]
      [] strat.t = "prob" -> [s |-> ByProb(strat.p, q), st |-> strat]
      [] strat.t = "ops" -> [s |-> ByProb(ProbOf(name), q), st |-> strat]
      [] strat.level >= 4 -> [s |-> TRUE, st |-> [strat EXCEPT !.level = @ - 4]]
      [] OTHER -> [s |-> Filled >= 4, st |-> [strat EXCEPT !.level = IF Filled >= 4 THEN Filled - 4 ELSE Filled, !.last = clock]]
Sample(name, id, p, wrap) ==
    /\ handles > 0
    /\ LET follow == wrap /\ HasParent(p)
           d == IF follow THEN [s |-> p = "sampled", st |-> strat] ELSE Decide(name, id.q, p) IN
       /\ strat' = d.st
       /\ Push([op |-> "jr_sample", name |-> name, tid |-> id.t, parent |-> p, wrap |-> wrap,
                exp |-> [sampled |-> d.s, dropped |-> ~d.s, state |-> State(p), attrs |-> 0]])
    /\ UNCHANGED <<conf, handles, task, clock>>
\* the clock of the machine; first told before anything else
Clock(by) == /\ clock' = clock + by /\ UNCHANGED <<conf, handles, task, strat>>
             /\ Push([op |-> "jr_clock", at |-> clock + by, exp |-> [ok |-> TRUE]])
Clone == /\ handles = 1 /\ handles' = 2 /\ UNCHANGED <<conf, task, strat, clock>> /\ Push([op |-> "jr_clone", exp |-> [ok |-> TRUE]])
Drop == /\ handles > 0 /\ handles' = handles - 1 /\ UNCHANGED <<conf, task, strat, clock>> /\ Push([op |-> "jr_drop", exp |-> [ok |-> TRUE]])

Init == /\ conf = Nothing /\ handles = 0 /\ task = "off" /\ strat = NoStrat /\ clock = 1000
        /\ hist = <<[op |-> "jr_clock", at |-> 1000, exp |-> [ok |-> TRUE]]>>
OneOf(S) == RandomElement(S)
Usual(d, b) == Build(U(NotSet, DefaultUrl), [t |-> "svc", q |-> "service=svc"], d, b, 60000)
L == Len(hist)
\* every configuration
Config == \/ L = 1 /\ \E e \in Endpoints, s \in Services, d \in Defaults, n \in {1000, 300000} : Build(e, s, d, 2, n)
          \/ L = 2 /\ Due
          \/ L = 3 /\ Answer(Good(P(4)))
\* every answer after none or another strategy, then decisions
Answers == {Good(s) : s \in Strategies} \cup Both \cup Bad
Firsts == {Good(s) : s \in {P(0), P(3), R(1), O(2, <<One("a", 4)>>)}} \cup {CHOOSE b \in Bad : b.status = "500"}
Change == \/ L = 1 /\ \E d \in {"on", "off"} : Usual(d, 1)
          \/ L = 2 /\ Due
          \/ L = 3 /\ \E a \in Firsts : Answer(a)
          \/ L = 4 /\ Due
          \/ L = 5 /\ \E a \in Answers : Answer(a)
          \/ L = 6 /\ \E n \in {"a", ""} : Sample(n, Id("00000000000000004000000000000000", 1), "none", FALSE)
          \/ L = 7 /\ Sample("b", Id("00000000000000018000000000000000", 2), "unsampled", FALSE)
\* every decision under every strategy
Decisions == \/ L = 1 /\ \E d \in Defaults : Usual(d, 1)
             \/ L = 2 /\ \E n \in Names, id \in Ids, p \in Parents, w \in BOOLEAN : Sample(n, id, p, w)
Under == \/ L = 1 /\ Usual("off", 1)
         \/ L = 2 /\ Due
         \/ L = 3 /\ \E s \in Strategies : Answer(Good(s))
         \/ L = 4 /\ \E n \in Names, id \in Ids, p \in Parents, w \in BOOLEAN : Sample(n, id, p, w)
\* the bucket: every sequence of waiting and asking
BucketStep == LET id == Id("00000000000000018000000000000000", 2) IN
              \/ L = 1 /\ \E b \in {0, 1, 2} : Usual("off", b)
              \/ L = 2 /\ Due
              \/ L = 3 /\ \E r \in {1, 2, 3} : Answer(Good(R(r)))
              \/ L >= 4 /\ L < SimLen /\ Sample("a", id, "none", FALSE)
              \/ L >= 4 /\ L < SimLen /\ hist[L].op # "jr_clock" /\ \E q \in Quarters : Clock(q)
\* when it asks, and until when
Life == \/ L = 1 /\ Usual("on", 1)
        \/ L > 1 /\ L < SimLen /\ (Due \/ (\E a \in {Good(P(0)), CHOOSE b \in Bad : b.status = "lost"} : Answer(a)) \/ Clone \/ Drop
                                \/ Sample("a", Id("00000000000000018000000000000000", 2), "none", FALSE))
Walk == /\ L < SimLen
        /\ IF L = 1 THEN Build(OneOf(Endpoints \ {U("", "")}), OneOf(Services \ {[t |-> "", q |-> ""]}), OneOf(Defaults), OneOf({-1, 0, 1, 2, 3}), OneOf({1, 1000, 300000}))
           ELSE \E k \in {OneOf(1..20)} :
                CASE k <= 4 -> Clock(OneOf({1, 1, 2, 3, 4, 5, 8, 40}))
                  [] k <= 8 /\ task = "waiting" -> Due
                  [] k <= 8 /\ task = "asking" ->
                       \E a \in {OneOf(IF OneOf(1..3) = 1 THEN Answers ELSE {Good(R(r)) : r \in {0, 1, 2, 4}})} :
                       IF Plain(a) THEN Answer(a) ELSE Answer(OneOf(Bad))
                  [] k = 9 -> IF handles = 1 /\ OneOf(1..6) # 1 THEN Clone ELSE IF handles > 0 /\ OneOf(1..6) = 1 THEN Drop ELSE Clock(1)
                  [] OTHER -> IF handles > 0 THEN Sample(OneOf(Names), OneOf(Ids), OneOf(Parents), OneOf(1..4) = 1) ELSE Clock(1)
\* what it is for: no more than the buckets' worth and the rate's worth over any time
Count(i, j) == Cardinality({k \in i..j : hist[k].op = "jr_sample" /\ hist[k].exp.sampled /\ ~(hist[k].wrap /\ HasParent(hist[k].parent))})
Limited == strat.t = "rate" => strat.level <= 4 * conf.bucket /\ strat.level >= 0
RateBound == L >= 4 /\ strat.t = "rate" => 4 * Count(5, L) <= 8 * conf.bucket + (clock - 1000) * strat.r
\* nothing is asked of the collector for a sampler that is gone
Quiet == handles = 0 /\ task = "waiting" => ENABLED Due
EmitT == Emit(hist')
EmitSim == Len(hist') = SimLen => Emit(hist')
=============================================================================
