------------------------------ MODULE ValueMap -------------------------------
(* One stream of a synchronous instrument with a delta reader, at the grain  *)
(* of the steps other threads can come between: measuring threads look their *)
(* attribute set up under a read lock, and take the write lock to add one;   *)
(* a collection swaps the whole map out and drains it.  A tracker is the set *)
(* of measurements it holds, so a report says exactly what was covered.      *)
(*                                                                           *)
(* TLC checks conservation for every interleaving of small programs, and     *)
(* finds the defect of each variant: no second look after the write lock     *)
(* (Recheck), a plain store instead of compare-and-swap (Cas), updating      *)
(* after the lock is gone (Hold), the flag of the empty set outside the lock *)
(* (Together, which this code base had), and a count that is not reset with  *)
(* the map (Fresh).  Random walks are schedules for the real code.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Cover
CONSTANTS Limit, Progs, Recheck, Cas, Hold, Together, Fresh, Pick(_), SimLen
VARIABLES prog, ip, pc, tgt, old, rlock, wlock, map, val, count, na, flag, drain, cur, reps, done, snap, hist
core == <<prog, ip, pc, tgt, old, rlock, wlock, map, val, count, na, flag, drain, cur, reps, done, snap>>
vars == <<core, hist>>
Threads == DOMAIN prog
Busy(a) == ip[a] <= Len(prog[a])
Op(a) == prog[a][ip[a]]
Id(a) == a \o ToString(ip[a])
Over == "~over"
None == [x \in {} |-> 0]
SetOf(id) == CHOOSE s \in {"e", "x", "y", "z"} : \E a \in Threads, k \in 1..4 : k <= Len(prog[a]) /\ id = a \o ToString(k) /\ prog[a][k] = s

Init ==
  /\ prog \in Pick(Progs) /\ ip = [a \in Threads |-> 1] /\ pc = [a \in Threads |-> "idle"]
  /\ tgt = [a \in Threads |-> 0] /\ old = [a \in Threads |-> {}] /\ rlock = {} /\ wlock = ""
  /\ map = None /\ val = <<>> /\ count = 0 /\ na = {} /\ flag = FALSE
  /\ drain = None /\ cur = None /\ reps = <<>> /\ done = {} /\ snap = {} /\ hist = <<>>

Goto(a, l) == pc' = [pc EXCEPT ![a] = l] /\ UNCHANGED <<ip, done>>
Finish(a) == /\ pc' = [pc EXCEPT ![a] = "idle"] /\ ip' = [ip EXCEPT ![a] = @ + 1]
             /\ done' = done \cup {Id(a)}
Unread(a) == rlock' = rlock \ {a}
NoCollect == UNCHANGED <<drain, cur, reps, snap>>
Measuring(a) == Busy(a) /\ Op(a) # "collect"

(*---- measuring threads ----*)
Read(a) ==
  /\ Measuring(a) /\ pc[a] = "idle" /\ wlock = "" /\ rlock' = rlock \cup {a} /\ Goto(a, "look")
  /\ UNCHANGED <<prog, tgt, old, wlock, map, val, count, na, flag>> /\ NoCollect
Look(a) ==
  /\ Measuring(a) /\ pc[a] = "look"
  /\ IF Op(a) = "e"
     THEN na' = na \cup {Id(a)} /\ Goto(a, "flag") /\ (IF Together THEN UNCHANGED rlock ELSE Unread(a)) /\ UNCHANGED tgt
     ELSE /\ UNCHANGED na
          /\ IF Op(a) \in DOMAIN map
             THEN tgt' = [tgt EXCEPT ![a] = map[Op(a)]] /\ Goto(a, "load") /\ (IF Hold THEN UNCHANGED rlock ELSE Unread(a))
             ELSE Goto(a, "write") /\ Unread(a) /\ UNCHANGED tgt
  /\ UNCHANGED <<prog, old, wlock, map, val, count, flag>> /\ NoCollect
Load(a) ==
  /\ Measuring(a) /\ pc[a] = "load" /\ old' = [old EXCEPT ![a] = val[tgt[a]]] /\ Goto(a, "cas")
  /\ UNCHANGED <<prog, tgt, rlock, wlock, map, val, count, na, flag>> /\ NoCollect
Swap(a) ==
  /\ Measuring(a) /\ pc[a] = "cas"
  /\ IF val[tgt[a]] = old[a] \/ ~Cas
     THEN val' = [val EXCEPT ![tgt[a]] = old[a] \cup {Id(a)}] /\ Finish(a) /\ Unread(a)
     ELSE Goto(a, "load") /\ UNCHANGED <<val, rlock>>
  /\ UNCHANGED <<prog, tgt, old, wlock, map, count, na, flag>> /\ NoCollect
Flag(a) ==
  /\ Measuring(a) /\ pc[a] = "flag" /\ flag' = TRUE /\ Finish(a) /\ Unread(a)
  /\ UNCHANGED <<prog, tgt, old, wlock, map, val, count, na>> /\ NoCollect
Add(a, s) == \* a new tracker
  map' = (s :> Len(val) + 1) @@ map /\ val' = Append(val, {Id(a)})
Upd(a, s) == val' = [val EXCEPT ![map[s]] = @ \cup {Id(a)}] /\ UNCHANGED map
Write(a) ==
  /\ Measuring(a) /\ pc[a] = "write" /\ wlock = "" /\ rlock = {} /\ Finish(a)
  /\ LET s == Op(a) IN
     IF Recheck /\ s \in DOMAIN map THEN Upd(a, s) /\ UNCHANGED count
     ELSE IF count < Limit THEN Add(a, s) /\ count' = count + 1
     ELSE (IF Over \in DOMAIN map THEN Upd(a, Over) ELSE Add(a, Over)) /\ UNCHANGED count
  /\ UNCHANGED <<prog, tgt, old, rlock, wlock, na, flag>> /\ NoCollect

(*---- the collector ----*)
Collect(a) ==
  /\ Busy(a) /\ Op(a) = "collect" /\ pc[a] = "idle" /\ snap' = done /\ Goto(a, "swap")
  /\ IF Together THEN UNCHANGED <<cur, na, flag>>
     ELSE flag' = FALSE /\ cur' = (IF flag THEN "e" :> {} ELSE None) /\ UNCHANGED na
  /\ UNCHANGED <<prog, tgt, old, rlock, wlock, map, val, count, drain, reps>>
Exchange(a) ==
  /\ Busy(a) /\ pc[a] = "swap"
  /\ IF Together
     THEN /\ wlock = "" /\ rlock = {} /\ flag' = FALSE
          /\ cur' = (IF flag THEN "e" :> na ELSE None) /\ na' = (IF flag THEN {} ELSE na)
     ELSE /\ wlock = "" /\ rlock = {} /\ UNCHANGED flag
          /\ cur' = (IF cur # None THEN "e" :> na ELSE None) /\ na' = (IF cur # None THEN {} ELSE na)
  /\ drain' = map /\ map' = None /\ count' = (IF Fresh THEN 0 ELSE count) /\ Goto(a, "drain")
  /\ UNCHANGED <<prog, tgt, old, rlock, wlock, val, reps, snap>>
Drain(a) ==
  /\ Busy(a) /\ pc[a] = "drain"
  /\ reps' = Append(reps, cur @@ [s \in DOMAIN drain |-> val[drain[s]]])
  /\ drain' = None /\ cur' = None
  /\ pc' = [pc EXCEPT ![a] = "idle"] /\ ip' = [ip EXCEPT ![a] = @ + 1]
  /\ UNCHANGED <<prog, tgt, old, rlock, wlock, map, val, count, na, flag, done, snap>>

Step(a) == Read(a) \/ Look(a) \/ Load(a) \/ Swap(a) \/ Flag(a) \/ Write(a) \/ Collect(a) \/ Exchange(a) \/ Drain(a)
Next == \E a \in Pick(Threads) : Step(a) /\ hist' = (IF SimLen > 0 THEN Append(hist, a) ELSE hist)
Safe == Init /\ [][Next]_vars

(*---- guarantees ----*)
Keys(r) == DOMAIN r \ {"e", Over}
Entries == {<<k, s>> : k \in 1..Len(reps), s \in {"e", "x", "y", "z", Over}}
In(e) == IF e[2] \in DOMAIN reps[e[1]] THEN reps[e[1]][e[2]] ELSE {}
Reported == UNION {In(e) : e \in Entries}
Once == \A e, f \in Entries : e # f => In(e) \cap In(f) = {}
Own == \A e \in Entries : e[2] # Over => \A i \in In(e) : SetOf(i) = e[2]
NothingEmpty == \A k \in 1..Len(reps) : \A s \in DOMAIN reps[k] : reps[k][s] # {}
Capped == \A k \in 1..Len(reps) :
  LET r == reps[k] IN
  /\ Cardinality(Keys(r)) <= Limit
  /\ Over \in DOMAIN r => Cardinality(Keys(r)) = Limit /\ \A i \in r[Over] : SetOf(i) \notin Keys(r)
Pending == UNION {val[map[s]] : s \in DOMAIN map} \cup (IF flag THEN na ELSE {})
           \cup UNION {val[drain[s]] : s \in DOMAIN drain} \cup UNION {cur[s] : s \in DOMAIN cur}
Conserved == done \subseteq Reported \cup Pending
  \cup (IF Together THEN {} ELSE na)   \* (between the two steps of the old collection)
Prompt == \A a \in Threads : (Busy(a) /\ pc[a] = "drain") =>
            snap \subseteq Reported \cup UNION {val[drain[s]] : s \in DOMAIN drain} \cup UNION {cur[s] : s \in DOMAIN cur}
NoWaitForever == (\E a \in Threads : Busy(a)) => ENABLED Next

(*---- schedules for the real code ----*)
Finished == \A a \in Threads : ~Busy(a)
NextSim == ~Finished /\ Len(hist) < SimLen /\ (Next \/ UNCHANGED vars)
EmitSim == (Len(hist') = SimLen \/ Finished') => Emit(<<[prog |-> prog, limit |-> Limit, sched |-> hist']>>)
Sys(x, y, c) == ("t1" :> x @@ "t2" :> y @@ "c" :> c)
C1 == <<"collect">>
Small == {Sys(x, y, c) : x \in {<<"x", "x">>, <<"e", "x">>, <<"x", "y">>, <<"e", "e">>}, y \in {<<"x">>, <<"e">>, <<"y">>},
                         c \in {C1, C1 \o C1}}
Large == {Sys(x, y, C1 \o C1) : x \in {<<"x", "x", "y">>, <<"e", "x", "e">>, <<"x", "y", "x">>},
                                y \in {<<"x", "y">>, <<"e", "e">>, <<"y", "x">>, <<"z", "z">>}}
Sets == {"e", "x", "y", "z"}
Walks == {Sys(x, y, c) : x \in {<<s, t, u>> : s, t, u \in Sets}, y \in {<<s, t>> : s, t \in Sets},
                         c \in {C1, C1 \o C1, <<"x">> \o C1, C1 \o <<"e">> \o C1}}
=============================================================================
