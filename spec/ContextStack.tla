---------------------------- MODULE ContextStack ----------------------------
(***************************************************************************)
(* The per-thread stack of attached contexts (property X01).               *)
(*                                                                         *)
(* Structured like the implementation: each thread keeps its current       *)
(* context in `cur` and the contexts below it in `stk`, a sequence whose   *)
(* slots become holes when a guard is dropped out of order.  The abstract  *)
(* meaning is `live`: the guards not dropped yet, in attach order; the     *)
(* invariant Refines says that the structure implements                    *)
(*      current = last of live, or the base context if there is none.      *)
(*                                                                         *)
(* (The code's limit is 65535 positions; MaxPos is what Fill leaves.)      *)
(* An attach beyond MaxPos-1 nested positions has no effect, and dropping  *)
(* its guard has none either.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Cover

CONSTANTS NThreads, MaxPos, MaxDepth,
          Fill,    \* contexts attached on each thread before the behaviour starts
          Pick(_),
          SimLen   \* length at which a simulated behaviour is printed

Threads == 1..NThreads
Hole == -1

VARIABLES stk,   \* stk[t]: Seq of context ids, or Hole
          cur,   \* cur[t]: id of the current context (0 = base)
          live,  \* live[t]: Seq of [pos, cx, g]: guards alive, attach order
          n,     \* attaches so far (names contexts and guards)
          hist
vars == <<stk, cur, live, n, hist>>
View == <<[t \in Threads |-> [i \in 1..Len(stk[t]) |-> stk[t][i] = Hole]],
          [t \in Threads |-> [i \in 1..Len(live[t]) |-> live[t][i].pos]]>>

Init == /\ stk = [t \in Threads |-> <<>>]
        /\ cur = [t \in Threads |-> 0]
        /\ live = [t \in Threads |-> <<>>]
        /\ n = 0
        /\ hist = <<[op |-> "init", threads |-> NThreads, fill |-> Fill,
                     exp |-> [t \in Threads |-> 0]]>>

AbsCur(l) == IF l = <<>> THEN 0
             ELSE LET eff == SelectSeq(l, LAMBDA e : e.pos < MaxPos)
                  IN IF eff = <<>> THEN 0 ELSE eff[Len(eff)].cx

Log(rec) == hist' = Append(hist, rec @@ [exp |-> [t \in Threads |-> AbsCur(live'[t])]])

\* attach a context: a fresh one, or (again) the current one
Push(t, cx) ==
    LET nextId == Len(stk[t]) + 1
        g == n + 1
    IN IF nextId < MaxPos
       THEN /\ stk' = [stk EXCEPT ![t] = Append(@, cur[t])]
            /\ cur' = [cur EXCEPT ![t] = cx]
            /\ live' = [live EXCEPT ![t] = Append(@, [pos |-> nextId, cx |-> cx, g |-> g])]
       ELSE /\ live' = [live EXCEPT ![t] = Append(@, [pos |-> MaxPos, cx |-> cx, g |-> g])]
            /\ UNCHANGED <<stk, cur>>

Attach(t) ==
    /\ Len(stk[t]) < MaxDepth /\ Len(live[t]) < MaxDepth
    /\ n' = n + 1
    /\ Push(t, n + 1)
    /\ Log([op |-> "attach", t |-> t, g |-> n + 1, cx |-> n + 1])

AttachCurrent(t) ==
    /\ Len(stk[t]) < MaxDepth /\ Len(live[t]) < MaxDepth
    /\ n' = n + 1
    /\ Push(t, cur[t])
    /\ Log([op |-> "attach_current", t |-> t, g |-> n + 1])

RECURSIVE StripHoles(_)
StripHoles(s) == IF s # <<>> /\ s[Len(s)] = Hole THEN StripHoles(SubSeq(s, 1, Len(s) - 1)) ELSE s

Remove(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

Detach(t, i) ==
    /\ i \in 1..Len(live[t])
    /\ LET e == live[t][i] IN
       /\ live' = [live EXCEPT ![t] = Remove(@, i)]
       /\ IF e.pos >= MaxPos THEN UNCHANGED <<stk, cur>>
          ELSE IF e.pos = Len(stk[t])
          THEN LET s == StripHoles(stk[t]) IN
               IF s = <<>> THEN /\ stk' = [stk EXCEPT ![t] = s] /\ UNCHANGED cur
               ELSE /\ cur' = [cur EXCEPT ![t] = s[Len(s)]]
                    /\ stk' = [stk EXCEPT ![t] = SubSeq(s, 1, Len(s) - 1)]
          ELSE /\ stk' = [stk EXCEPT ![t] = [@ EXCEPT ![e.pos + 1] = Hole]]
               /\ UNCHANGED cur
       /\ UNCHANGED n
       /\ Log([op |-> "detach", t |-> t, g |-> e.g])

Next == \/ \E t \in Pick(Threads) : Attach(t)
        \/ \E t \in Pick(Threads) : AttachCurrent(t)
        \/ \E t \in Pick(Threads) : \E i \in Pick(1..Len(live[t])) : Detach(t, i)

Spec == Init /\ [][Next]_vars

Refines == \A t \in Threads : cur[t] = AbsCur(live[t])
BaseRestored == \A t \in Threads : live[t] = <<>> => cur[t] = 0 /\ stk[t] = <<>>
TopNeverHole == \A t \in Threads : \A i \in 1..Len(stk[t]) :
                   stk[t][i] = Hole => \A e \in 1..Len(live[t]) : live[t][e].pos # i - 1
Inv == Refines /\ BaseRestored /\ TopNeverHole
EmitT == Emit(hist')
\* random walks: a step whose random choices are not enabled is skipped
NextSim == Len(hist) < SimLen /\ (Next \/ UNCHANGED vars)
EmitSim == Len(hist') = SimLen => Emit(hist')
=============================================================================
