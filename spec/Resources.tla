------------------------------ MODULE Resources ------------------------------
(* Building a resource (property R01).  A resource is a map from keys to     *)
(* values with at most one schema URL.  The default sources are, from lowest *)
(* to highest rank: what the SDK knows about itself, the attributes variable *)
(* OTEL_RESOURCE_ATTRIBUTES, and the service name (OTEL_SERVICE_NAME, else   *)
(* the one in the attributes variable, else "unknown_service").  Every later *)
(* source overrides the keys it has; schema URLs combine to the only one     *)
(* there is, and to none when they differ.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Cover
CONSTANTS EnvLists,   \* sequences of entries of the attributes variable
          SvcNames,   \* values of OTEL_SERVICE_NAME ("-": not set)
          MaxOps, MaxProvides, SimLen, Pick(_)
Keys == {"a", "b", "service.name", "telemetry.sdk.name", "telemetry.sdk.language", "telemetry.sdk.version"}
Absent == "-"
Empty == [k \in Keys |-> Absent]
NoUrl == ""
Urls == {"http://u/1", "http://u/2"}

(* Entries of the attributes variable, their text and what it means *)
E(t, k, v) == [text |-> t, k |-> k, v |-> v]
Plain == E("a=e1", "a", "e1")
Spaced == E(" b = e2 ", "b", "e2")
Again == E("a=e3", "a", "e3")
Equals == E("a=x=y", "a", "x=y")
NoValue == E("b=", "b", "")
Junk == E("junk", Absent, "")
Blank == E("", Absent, "")
Svc == E("service.name=es", "service.name", "es")
NoSvc == E("service.name=", "service.name", "")
SmallEnv == {<<>>, <<Plain>>, <<Svc, Spaced>>, <<Junk, Again>>}
WideEnv == {<<>>, <<Blank>>, <<Plain>>, <<Plain, Again>>, <<Again, Junk, Plain>>, <<Svc>>, <<Spaced, Blank, Svc>>, <<NoSvc>>,
            <<Equals, NoValue>>, <<Svc, Plain, NoSvc>>, <<Junk, Junk>>, <<NoValue, Spaced>>, <<Blank, Equals>>}

VARIABLES env,     \* [sn, ra]: the environment (ra = <<"-">>: not set)
          res, url, ops, prov, hist
vars == <<env, res, url, ops, prov, hist>>
View == <<env, res, url, ops, prov>>

Over(lo, hi) == [k \in Keys |-> IF hi[k] # Absent THEN hi[k] ELSE lo[k]]
RECURSIVE OfList(_, _)   \* entries are records with k and v; later ones override
OfList(m, l) == IF l = <<>> THEN m
                ELSE OfList(IF Head(l).k \in Keys THEN [m EXCEPT ![Head(l).k] = Head(l).v] ELSE m, Tail(l))
FromEnv(e) == OfList(Empty, e.ra)
ServiceName(e) == IF e.sn \notin {Absent, ""} THEN e.sn
                  ELSE IF FromEnv(e)["service.name"] # Absent THEN FromEnv(e)["service.name"]
                  ELSE "unknown_service"
FromSdk(e) == [Empty EXCEPT !["service.name"] = ServiceName(e)]
Telemetry == [Empty EXCEPT !["telemetry.sdk.name"] = "opentelemetry", !["telemetry.sdk.language"] = "rust",
                           !["telemetry.sdk.version"] = "VERSION"]
Defaults(e) == Over(Over(Telemetry, FromEnv(e)), FromSdk(e))
Comb(x, y) == IF x = y \/ y = NoUrl THEN x ELSE IF x = NoUrl THEN y ELSE NoUrl

Obs(r, u) == [attrs |-> r, url |-> u]
Init == /\ env \in {[sn |-> s, ra |-> r] : s \in SvcNames, r \in EnvLists}
        /\ \E mode \in {"default", "empty"} :
             /\ res = (IF mode = "default" THEN Defaults(env) ELSE Empty)
             /\ hist = <<[op |-> "init", mode |-> mode, sn |-> env.sn, ra |-> [k \in 1..Len(env.ra) |-> env.ra[k].text],
                          exp |-> Obs(res, NoUrl)]>>
        /\ url = NoUrl /\ ops = 0 /\ prov = 0
Became(r, u, o) == /\ res' = r /\ url' = u /\ ops' = ops + 1 /\ UNCHANGED <<env, prov>>
                   /\ hist' = Append(hist, o @@ [exp |-> Obs(r, u)])
KV(k, v) == [k |-> k, v |-> v]
Lists == {<<KV("a", "v1")>>, <<KV("b", "v2"), KV("a", "v3")>>, <<KV("a", "v4"), KV("a", "v5")>>, <<>>,
          <<KV("service.name", "code")>>, <<KV("telemetry.sdk.name", "own"), KV("b", "v6")>>}
Attributes(l) == Became(Over(res, OfList(Empty, l)), url, [op |-> "attrs", kvs |-> l])
ServiceNameOp(v) == Became([res EXCEPT !["service.name"] = v], url, [op |-> "service", v |-> v])
\* attributes given with a schema URL: only for keys the resource does not have yet (see DESIGN.md)
SchemaUrl(l, u) == /\ \A k \in 1..Len(l) : res[l[k].k] = Absent
                   /\ Became(Over(res, OfList(Empty, l)), Comb(url, u), [op |-> "schema", kvs |-> l, url |-> u])
\* a detector: one of the three of the SDK, or a user's with attributes and schema URL
Own(l, u) == [d |-> "own", kvs |-> l, url |-> u]
Sdk(d) == [d |-> d, kvs |-> <<>>, url |-> NoUrl]
Detected(d) == CASE d.d = "own" -> OfList(Empty, d.kvs) [] d.d = "env" -> FromEnv(env)
                 [] d.d = "sdk" -> FromSdk(env) [] d.d = "telemetry" -> Telemetry
Detectors1 == {<<Own(l, u)>> : l \in {<<KV("a", "d1")>>, <<>>}, u \in Urls \cup {NoUrl}} \cup {<<Sdk(d)>> : d \in {"env", "sdk", "telemetry"}}
Detectors2 == {<<Own(<<KV("a", "d2")>>, "http://u/1"), Own(<<KV("a", "d3"), KV("b", "d4")>>, NoUrl)>>,
               <<Own(<<KV("b", "d5")>>, NoUrl), Sdk("env")>>, <<Sdk("env"), Own(<<KV("a", "d6")>>, "http://u/2")>>,
               <<Sdk("telemetry"), Sdk("env"), Sdk("sdk")>>}
Detect(ds) ==
  LET found == IF Len(ds) = 3 THEN Over(Over(Detected(ds[1]), Detected(ds[2])), Detected(ds[3]))
               ELSE IF Len(ds) = 2 THEN Over(Detected(ds[1]), Detected(ds[2])) ELSE Detected(ds[1])
      u == IF Len(ds) = 1 THEN ds[1].url ELSE Comb(ds[1].url, ds[2].url)
  IN Became(Over(res, found), Comb(url, u), [op |-> "detect", ds |-> ds])

(* The resource of a provider is what its exporters are given before they export anything. *)
Second == {<<>>, <<Own(<<KV("a", "p1")>>, "http://u/2")>>}
Provide(sec) ==
  LET r == IF sec = <<>> THEN res ELSE Over(res, Detected(sec[1]))
      u == IF sec = <<>> THEN url ELSE Comb(url, sec[1].url)
  IN /\ prov < MaxProvides /\ prov' = prov + 1 /\ UNCHANGED <<env, res, url, ops>>
     /\ hist' = Append(hist, [op |-> "provide", second |-> sec,
                              exp |-> [w \in {"simple", "batch", "abatch", "logs", "logbatch", "alogbatch", "reader", "periodic"} |-> Obs(r, u)]])
ProvideDefault ==
  /\ prov < MaxProvides /\ prov' = prov + 1 /\ UNCHANGED <<env, res, url, ops>>
  /\ hist' = Append(hist, [op |-> "provide_default",
                           exp |-> [w \in {"simple", "batch", "abatch", "logs", "logbatch", "alogbatch", "reader", "periodic"} |-> Obs(Defaults(env), NoUrl)]])
Next == \/ ops < MaxOps /\ \/ \E l \in Pick(Lists) : Attributes(l)
                           \/ \E v \in Pick({"s1", ""}) : ServiceNameOp(v)
                           \/ \E l \in Pick({<<>>, <<KV("a", "u1")>>}), u \in Pick(Urls \cup {NoUrl}) : SchemaUrl(l, u)
                           \/ \E d \in Pick(Detectors1 \cup Detectors2) : Detect(d)
        \/ \E s \in Pick(Second) : Provide(s)
        \/ ProvideDefault
NextSim == Len(hist) < SimLen /\ (Next \/ UNCHANGED vars)
(* The order of the default sources, said without the definition above *)
Ranked == \A e \in {env} : LET d == Defaults(e) IN
  /\ e.sn \notin {Absent, ""} => d["service.name"] = e.sn
  /\ d["service.name"] # Absent /\ d["telemetry.sdk.language"] = "rust"
UrlSane == url \in Urls \cup {NoUrl}
Inv == Ranked /\ UrlSane
EmitT == Emit(hist')
EmitSim == Len(hist') = SimLen => Emit(hist')
=============================================================================
