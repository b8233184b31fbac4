---------------------------- MODULE ContextValues ----------------------------
(***************************************************************************)
(* Contexts as immutable values (properties X02 and, for baggage, P03).    *)
(*                                                                         *)
(* `pool` holds every context derived so far.  A derivation appends one    *)
(* context which differs from its source in exactly one component; every   *)
(* step's expected observation is the whole pool, so a derivation that     *)
(* changed its source (or anything derived earlier) is seen.               *)
(*                                                                         *)
(* A source is read either directly ("own": cx.with_...) or through the    *)
(* thread's current context ("cur": Context::current_with_... while the    *)
(* source is attached).                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Cover

CONSTANTS MaxPool, SimLen, Types, Vias, Pick(_)

VARIABLES pool, hist
vars == <<pool, hist>>
View == pool

\* vals[T]: value of type T (0 = none); span: 0 none, n: a span; sk: its kind
Empty == [vals |-> [x \in Types |-> 0], span |-> 0, sk |-> "none", bag |-> 0, sup |-> FALSE]

Obs(c) == [vals |-> c.vals, span |-> c.span, active |-> c.sk # "none", remote |-> c.sk = "remote",
           bag |-> c.bag, sup |-> c.sup]
ObsAll(p) == [i \in 1..Len(p) |-> Obs(p[i])]

Init == /\ pool = <<Empty>>
        /\ hist = <<[op |-> "init", exp |-> ObsAll(<<Empty>>)]>>

\* the name of a derived value is the position it is created at
Id == Len(pool) + 1

Derive(c, what) ==
    CASE what.k = "value"  -> [c EXCEPT !.vals[what.t] = Id]
      [] what.k = "span"   -> [c EXCEPT !.span = Id, !.sk = "local"]
      [] what.k = "remote" -> [c EXCEPT !.span = Id, !.sk = "remote"]
      [] what.k = "invalid_remote" -> [c EXCEPT !.span = 0, !.sk = "invalid"]
      [] what.k = "bag"    -> [c EXCEPT !.bag = Id]
      [] what.k = "emptybag" -> [c EXCEPT !.bag = 0]
      [] what.k = "clear"  -> [c EXCEPT !.bag = 0]
      [] what.k = "sup"    -> [c EXCEPT !.sup = TRUE]
      [] what.k = "clone"  -> c

Kinds == {[k |-> "value", t |-> t] : t \in Types}
         \cup {[k |-> x, t |-> "-"] : x \in {"span", "remote", "invalid_remote", "bag", "emptybag",
                                            "clear", "sup", "clone"}}

Step(i, what, via) ==
    /\ Len(pool) < MaxPool
    /\ pool' = Append(pool, Derive(pool[i], what))
    /\ hist' = Append(hist, [op |-> "derive", src |-> i, k |-> what.k, t |-> what.t, via |-> via,
                             exp |-> ObsAll(pool')])

\* forgetting a context (its last handle may go) changes nothing for the others
Next == \E i \in Pick(1..Len(pool)), w \in Pick(Kinds), v \in Pick(Vias) : Step(i, w, v)
Spec == Init /\ [][Next]_vars

\* each derived context differs from its source in at most one component
Diff(a, b) == Cardinality({t \in Types : a.vals[t] # b.vals[t]})
              + (IF <<a.span, a.sk>> = <<b.span, b.sk>> THEN 0 ELSE 1)
              + (IF a.bag = b.bag THEN 0 ELSE 1) + (IF a.sup = b.sup THEN 0 ELSE 1)
OneThing == \A j \in 2..Len(pool) : \E i \in 1..(j - 1) : Diff(pool[i], pool[j]) <= 1
Immutable == \A j \in 2..Len(hist) : \A i \in 1..(j - 1) : hist[j].exp[i] = hist[i].exp[i]
SupSticks == [][\A i \in 1..Len(pool) : pool'[i].sup = pool[i].sup]_vars
Inv == OneThing /\ Immutable
EmitT == Len(pool') = MaxPool => Emit(hist')
\* random walks: a step whose random choices are not enabled is skipped
NextSim == Len(hist) < SimLen /\ (Next \/ UNCHANGED vars)
EmitSim == Len(hist') = SimLen => Emit(hist')
=============================================================================
