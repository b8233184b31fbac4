--------------------------- MODULE TraceStateEdits ---------------------------
(***************************************************************************)
(* Histories of trace state edits (property P02).  `pool` holds every      *)
(* trace state made so far; each step's observation is the whole pool, so  *)
(* an edit that touched its source is seen.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Cover
CONSTANTS Keys, MaxPool, MaxList, SimLen, Pick(_)
VARIABLES pool, hist
vars == <<pool, hist>>
View == pool

Del(kvs, k) == SelectSeq(kvs, LAMBDA e : e[1] # k)
Ins(kvs, k, v) == <<<<k, v>>>> \o Del(kvs, k)
Get(kvs, k) == LET at == {i \in 1..Len(kvs) : kvs[i][1] = k} IN
               IF at = {} THEN <<>> ELSE <<kvs[CHOOSE i \in at : \A j \in at : i <= j][2]>>
Obs(kvs) == [kvs |-> kvs, get |-> [k \in Keys |-> Get(kvs, k)], same |-> TRUE]

Init == /\ pool = <<<<>>>> /\ hist = <<[op |-> "ts_init", exp |-> <<Obs(<<>>)>>]>>
Add(kvs, r) == /\ Len(pool) < MaxPool
               /\ pool' = Append(pool, kvs)
               /\ hist' = Append(hist, r @@ [exp |-> [i \in 1..Len(pool') |-> Obs(pool'[i])]])
V == "v" \o ToString(Len(pool))
Insert(i, k) == Add(Ins(pool[i], k, V), [op |-> "ts_insert", src |-> i, k |-> k, v |-> V])
Delete(i, k) == Add(Del(pool[i], k), [op |-> "ts_delete", src |-> i, k |-> k])
\* a list with distinct keys, given as a list or as a header
Lists == UNION {{l \in [1..n -> Keys] : \A a, b \in 1..n : a # b => l[a] # l[b]} : n \in 0..MaxList}
Make(l, how) == LET kvs == [j \in 1..Len(l) |-> <<l[j], V \o ToString(j)>>] IN
                Add(kvs, [op |-> "ts_make", how |-> how, kvs |-> kvs])
\* a header that repeats a key: kept as it is, but edits of that key leave one entry or none
Dup(k, k2) == LET kvs == <<<<k, V \o "x">>, <<k2, V \o "y">>, <<k, V \o "z">>>> IN
              Add(kvs, [op |-> "ts_make", how |-> "header", kvs |-> kvs])

Next == \/ \E i \in Pick(1..Len(pool)), k \in Pick(Keys) : Insert(i, k)
        \/ \E i \in Pick(1..Len(pool)), k \in Pick(Keys) : Delete(i, k)
        \/ \E l \in Pick(Lists), h \in Pick({"list", "header"}) : Make(l, h)
        \/ \E k \in Pick(Keys), k2 \in Pick(Keys) : k # k2 /\ Dup(k, k2)
NextSim == Len(hist) < SimLen /\ (Next \/ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Last == hist[Len(hist)]
UniqueAfterEdit == Last.op = "ts_insert" =>
    LET r == pool[Len(pool)] IN
    /\ r[1] = <<Last.k, Last.v>>
    /\ Cardinality({i \in 1..Len(r) : r[i][1] = Last.k}) = 1
GoneAfterDelete == Last.op = "ts_delete" => Get(pool[Len(pool)], Last.k) = <<>>
Inv == UniqueAfterEdit /\ GoneAfterDelete
EmitT == Emit(hist')
EmitSim == Len(hist') = SimLen => Emit(hist')
=============================================================================
