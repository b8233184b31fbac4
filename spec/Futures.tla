------------------------------- MODULE Futures -------------------------------
(***************************************************************************)
(* Futures, streams and sinks bound to a context (property X03).           *)
(*                                                                         *)
(* A bound future attaches its context when a poll enters it and detaches  *)
(* when the poll leaves, also by panic.  Polls nest: `stk[t]` is the       *)
(* thread's stack of attached contexts, written at the grain of the code   *)
(* (enter / leave), and one Poll action of the driver is a whole chain of  *)
(* nested enters and leaves whose observations PollObs computes.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Cover

CONSTANTS NThreads, NFuts, MaxAttach, MaxChain, SimLen, Kinds, Pick(_)

Threads == 1..NThreads
Futs == 1..NFuts

VARIABLES stk,   \* stk[t]: contexts attached on t by the driver
          fut,   \* fut[f]: <<>> not created, or the contexts bound to it, innermost first
          kind, done, n, hist
vars == <<stk, fut, kind, done, n, hist>>
View == <<[t \in Threads |-> Len(stk[t])],
          [f \in Futs |-> IF fut[f] = <<>> THEN 0 ELSE Len(fut[f])], kind, done>>

Cur(s) == IF s = <<>> THEN 0 ELSE s[Len(s)]
AllCur == [t \in Threads |-> Cur(stk'[t])]

Init == /\ stk = [t \in Threads |-> <<>>]
        /\ fut = [f \in Futs |-> <<>>]
        /\ kind = [f \in Futs |-> "-"]
        /\ done = [f \in Futs |-> FALSE]
        /\ n = 0
        /\ hist = <<[op |-> "init", threads |-> NThreads, exp |-> [t \in Threads |-> 0]]>>

Log(r, obs) == hist' = Append(hist, r @@ [exp |-> [cur |-> AllCur, obs |-> obs]])

Attach(t) == /\ Len(stk[t]) < MaxAttach
             /\ n' = n + 1
             /\ stk' = [stk EXCEPT ![t] = Append(@, n')]
             /\ UNCHANGED <<fut, kind, done>>
             /\ Log([op |-> "attach", t |-> t, cx |-> n'], <<>>)
Detach(t) == /\ stk[t] # <<>>
             /\ stk' = [stk EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
             /\ UNCHANGED <<fut, kind, done, n>>
             /\ Log([op |-> "detach", t |-> t], <<>>)

\* bind future f to a fresh context, or to the current context of thread t
Bind(t, f, k, how) ==
    /\ fut[f] = <<>> /\ ~done[f]
    /\ n' = n + 1
    /\ LET c == IF how = "current" THEN Cur(stk[t]) ELSE n' IN
       /\ fut' = [fut EXCEPT ![f] = <<c>>]
       /\ kind' = [kind EXCEPT ![f] = k]
       /\ UNCHANGED <<stk, done>>
       /\ Log([op |-> "bind", t |-> t, f |-> f, kind |-> k, how |-> how, cx |-> c], <<>>)
\* bind it again: the outer context is shadowed by the inner one during polls
Rebind(t, f) ==
    /\ Len(fut[f]) = 1 /\ ~done[f]
    /\ n' = n + 1
    /\ fut' = [fut EXCEPT ![f] = Append(@, n')]
    /\ UNCHANGED <<stk, kind, done>>
    /\ Log([op |-> "rebind", t |-> t, f |-> f, cx |-> n'], <<>>)

\* enter each future of the chain, observe, poll the rest, observe again, leave
RECURSIVE PollObs(_, _)
PollObs(s, chain) ==
    IF chain = <<>> THEN <<>>
    ELSE LET f == Head(chain)
             in == s \o [i \in 1..Len(fut[f]) |-> fut[f][Len(fut[f]) + 1 - i]]
         IN <<Cur(in)>> \o PollObs(in, Tail(chain)) \o <<Cur(in)>>

Modes == {"pending", "ready", "panic"}
Poll(t, chain, mode) ==
    /\ done' = IF mode = "pending" THEN done
               ELSE [f \in Futs |-> done[f] \/ \E i \in 1..Len(chain) : chain[i] = f]
    /\ UNCHANGED <<stk, fut, kind, n>>
    /\ Log([op |-> "poll", t |-> t, chain |-> chain, mode |-> mode], 
           IF mode = "panic" THEN SubSeq(PollObs(stk[t], chain), 1, Len(chain)) ELSE PollObs(stk[t], chain))

DropFut(t, f) == /\ fut[f] # <<>>
                 /\ fut' = [fut EXCEPT ![f] = <<>>]
                 /\ done' = [done EXCEPT ![f] = FALSE]
                 /\ kind' = [kind EXCEPT ![f] = "-"]
                 /\ UNCHANGED <<stk, n>>
                 /\ Log([op |-> "drop", t |-> t, f |-> f], <<>>)

Pollable == {f \in Futs : fut[f] # <<>> /\ ~done[f]}
Chains == UNION {{c \in [1..k -> Pollable] : \A i, j \in 1..k : i # j => c[i] # c[j]} : k \in 1..MaxChain}
Next == \/ \E t \in Pick(Threads) : Attach(t)
        \/ \E t \in Pick(Threads) : Detach(t)
        \/ \E t \in Pick(Threads), f \in Pick(Futs) : Rebind(t, f)
        \/ \E t \in Pick(Threads), f \in Pick(Futs) : DropFut(t, f)
        \/ \E t \in Pick(Threads), f \in Pick(Futs), k \in Pick(Kinds), h \in Pick({"given", "current"}) : Bind(t, f, k, h)
        \/ \E t \in Pick(Threads), c \in Pick(Chains), m \in Pick(Modes) : Poll(t, c, m)
        \/ \E t \in Pick(Threads), c \in Pick(Chains) : Poll(t, c, "pending")
Spec == Init /\ [][Next]_vars

\* a poll never changes any thread's current context, and inside it every future sees its
\* own (innermost) context whatever is attached on the thread
PollNeutral == \A i \in 2..Len(hist) : hist[i].op = "poll" =>
                 hist[i].exp.cur = (IF i = 2 THEN hist[1].exp ELSE hist[i-1].exp.cur)
OwnContext == hist[Len(hist)].op = "poll" =>
                 \A i \in 1..Len(hist[Len(hist)].chain) :
                    hist[Len(hist)].exp.obs[i] = fut[hist[Len(hist)].chain[i]][1]
Inv == OwnContext /\ (Len(hist) > 2 => PollNeutral \/ hist[2].op = "poll")
EmitT == Emit(hist')
\* random walks: a step whose random choices are not enabled is skipped
NextSim == Len(hist) < SimLen /\ (Next \/ UNCHANGED vars)
EmitSim == Len(hist') = SimLen => Emit(hist')
=============================================================================
