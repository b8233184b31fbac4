------------------------------ MODULE MeterTrace -----------------------------
(* Threads record measurements while readers collect; the trace says when    *)
(* each recording began and ended and what each collection reported.  Every  *)
(* measurement of a counter or histogram carries a different power of two,   *)
(* so a reported sum names the measurements it covers; a gauge's value names *)
(* the recording it came from.                                               *)
(*                                                                           *)
(* A recording that ended before a collection began is in that collection or *)
(* was in an earlier one; one that overlaps it may be; nothing is reported   *)
(* twice under delta temporality, and nothing ever disappears under          *)
(* cumulative temporality; each is reported under its own attribute set, or  *)
(* the overflow set once the limit is reached.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Sums, Gauges    \* which kinds of instruments are judged
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, at, meas, rep, win
\* meas: function from measurement to [i, s, b, d] (begun and done at those events, 0: not yet)
\* rep[r]: function from measurements reported to reader r to the set they were reported under
\* win[r]: where the reader's last collection began and ended, and where the present one began
vars == <<tid, at, meas, rep, win>>
Tr == Traces[tid]
Ev == Tr[at + 1]
Cfg == Tr[1]
None == [x \in {} |-> 0]
Over == "~over"
Insts == DOMAIN Cfg.insts
Rdrs == DOMAIN Cfg.rdrs
Init == /\ tid \in 1..Len(Traces) /\ at = 1 /\ meas = None
        /\ rep = [r \in Rdrs |-> None] /\ win = [r \in Rdrs |-> [b |-> 0, e |-> 0, now |-> 0]]
Step(e) == /\ at < Len(Tr) /\ Ev.e = e /\ at' = at + 1 /\ UNCHANGED tid
Rec == /\ Step("rec") /\ meas' = (Ev.m :> [i |-> Ev.i, s |-> Ev.s, b |-> at + 1, d |-> 0]) @@ meas
       /\ UNCHANGED <<rep, win>>
RecDone == Step("recd") /\ meas' = [meas EXCEPT ![Ev.m].d = at + 1] /\ UNCHANGED <<rep, win>>
Begin == Step("col") /\ win' = [win EXCEPT ![Ev.r].now = at + 1] /\ UNCHANGED <<meas, rep>>

\* what a collection (event Ev) reported for instrument i: set of <<attribute set, measurements>>
Lines(i) == {k \in 1..Len(Ev.out) : Ev.out[k].i = i}
Ids(k) == {Ev.out[k].m[j] : j \in 1..Len(Ev.out[k].m)}
Under(i) == UNION {{<<m, Ev.out[k].s>> : m \in Ids(k)} : k \in Lines(i)}
Sets(i) == {Ev.out[k].s : k \in Lines(i)}
Of(i) == {m \in DOMAIN meas : meas[m].i = i}
Before(m, p) == meas[m].d # 0 /\ meas[m].d < p

Shape(i, lim) ==   \* each set once, with something to report; the limit holds
  LET keys == Sets(i) \ {"", Over} IN
  /\ Cardinality(Lines(i)) = Cardinality(Sets(i))
  /\ \A k \in Lines(i) : Ids(k) # {}
  /\ \A p \in Under(i) : p[1] \in Of(i) /\ (p[2] = Over \/ p[2] = meas[p[1]].s)
  /\ Cardinality(keys) <= lim
  /\ Over \in Sets(i) => Cardinality(keys) = lim
  /\ \A p \in Under(i) : p[2] = Over => meas[p[1]].s \notin keys \cup {""}

SumOk(i, r) ==
  LET all == {p[1] : p \in Under(i)}
      had == {m \in DOMAIN rep[r] : meas[m].i = i}
      due == {m \in Of(i) : Before(m, win[r].now)} IN
  /\ Cardinality(all) = Cardinality(Under(i))          \* no measurement in two points
  /\ IF Cfg.rdrs[r][i] = "delta"
     THEN all \cap had = {} /\ due \subseteq all \cup had
     ELSE due \subseteq all /\ \A m \in had : <<m, rep[r][m]>> \in Under(i)

GaugeOk(i, r) ==
  LET now == win[r].now
      delta == Cfg.rdrs[r][i] = "delta" IN
  /\ \A k \in Lines(i) : Cardinality(Ids(k)) = 1
  /\ \A p \in Under(i) :
       LET v == p[1] IN
       /\ p[2] # Over => \A m \in Of(i) : meas[m].s = p[2] /\ Before(m, now) => ~(Before(v, meas[m].b))
       /\ delta => v \notin DOMAIN rep[r] /\ ~(win[r].b > 0 /\ Before(v, win[r].b))
  /\ \A m \in Of(i) : Before(m, now) /\ (~delta \/ meas[m].b > win[r].e) => (meas[m].s \in Sets(i) \/ (meas[m].s # "" /\ Over \in Sets(i)))

Collected ==
  /\ Step("cold") /\ Ev.bad = <<>>
  /\ \A i \in Insts :
       /\ (IF Cfg.insts[i].gauge THEN Gauges ELSE Sums) => Shape(i, Cfg.insts[i].limit)
       /\ (IF Cfg.insts[i].gauge THEN Gauges => GaugeOk(i, Ev.r) ELSE Sums => SumOk(i, Ev.r))
  /\ LET new == UNION {Under(i) : i \in Insts}
         \* (a recording of another instrument is caught by Shape; here only what is known)
         ok == {p \in new : p[1] \in DOMAIN meas} IN
     rep' = [rep EXCEPT ![Ev.r] = [m \in {p[1] : p \in ok} |-> (CHOOSE p \in ok : p[1] = m)[2]] @@ @]
  /\ win' = [win EXCEPT ![Ev.r] = [b |-> @.now, e |-> at + 1, now |-> 0]]
  /\ UNCHANGED meas
End == Step("end") /\ (\A m \in DOMAIN meas : meas[m].d # 0) /\ UNCHANGED <<meas, rep, win>>
\* says how far the run could be followed (after all other conditions: TLC evaluates in order)
Report == at' # at => /\ PrintT("@@AT " \o ToString(tid) \o " " \o ToString(at + 1))
                      /\ (at + 1 = Len(Tr) => PrintT("@@ACCEPT " \o ToString(tid)))
Next == (Rec \/ RecDone \/ Begin \/ Collected \/ End) /\ Report
Sane == \A r \in Rdrs : DOMAIN rep[r] \subseteq DOMAIN meas
=============================================================================
