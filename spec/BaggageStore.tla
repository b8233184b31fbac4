---------------------------- MODULE BaggageStore ----------------------------
(***************************************************************************)
(* The baggage container under its limits (property P03).                  *)
(*                                                                         *)
(* The baggage starts with FillN entries of FillLen bytes each, so that    *)
(* the modelled names meet the limits of 64 entries and 8192 bytes.  The   *)
(* code keeps a running total `total`; TotalExact says that it is the sum  *)
(* of what is stored.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Cover
CONSTANTS Names,     \* valid names, each of NameLen bytes
          NameLen, ValLens, MetaLens, FillN, FillLen, SimLen, Pick(_)
MaxPairs == 64
MaxBytes == 8192

VARIABLES bag,    \* bag[x]: <<>> or <<[tag, vl, ml]>>
          fill,   \* fill entries still there
          total, n, hist
vars == <<bag, fill, total, n, hist>>
View == <<[x \in Names |-> IF bag[x] = <<>> THEN <<>> ELSE <<bag[x][1].vl, bag[x][1].ml>>], fill>>

Size(e) == NameLen + e.vl + e.ml
Present(b) == {x \in Names : b[x] # <<>>}
RECURSIVE SumSizes(_, _)
SumSizes(b, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Size(b[x][1]) + SumSizes(b, S \ {x})
Obs == [len |-> Cardinality(Present(bag')) + fill', ents |-> bag']

Init == /\ bag = [x \in Names |-> <<>>]
        /\ fill = FillN
        /\ total = FillN * FillLen
        /\ n = 0
        /\ hist = <<[op |-> "bag_init", filln |-> FillN, filllen |-> FillLen, names |-> Names,
                     exp |-> [len |-> FillN, ents |-> [x \in Names |-> <<>>]]]>>

Insert(x, vl, ml, unit) ==
    LET e == [tag |-> n % 26, vl |-> vl, ml |-> ml]
        old == IF bag[x] = <<>> THEN 0 ELSE Size(bag[x][1])
        newTotal == total + Size(e) - old
        ok == newTotal <= MaxBytes /\ (bag[x] # <<>> \/ Cardinality(Present(bag)) + fill < MaxPairs)
    IN /\ n' = n + 1
       /\ bag' = IF ok THEN [bag EXCEPT ![x] = <<e>>] ELSE bag
       /\ total' = IF ok THEN newTotal ELSE total
       /\ UNCHANGED fill
       /\ hist' = Append(hist, [op |-> "bag_insert", name |-> x, tag |-> n % 26, vl |-> vl, ml |-> ml, unit |-> unit,
                                exp |-> Obs])
Remove(x) ==
    /\ bag' = [bag EXCEPT ![x] = <<>>]
    /\ total' = total - (IF bag[x] = <<>> THEN 0 ELSE Size(bag[x][1]))
    /\ UNCHANGED <<fill, n>>
    /\ hist' = Append(hist, [op |-> "bag_remove", name |-> x, exp |-> Obs])
RemoveFill ==
    /\ fill > 0 /\ fill > FillN - 2
    /\ fill' = fill - 1
    /\ total' = total - FillLen
    /\ UNCHANGED <<bag, n>>
    /\ hist' = Append(hist, [op |-> "bag_remove_fill", i |-> fill, exp |-> Obs])
AddFill ==
    /\ fill < FillN
    /\ LET ok == total + FillLen <= MaxBytes /\ Cardinality(Present(bag)) + fill < MaxPairs IN
       /\ fill' = IF ok THEN fill + 1 ELSE fill
       /\ total' = IF ok THEN total + FillLen ELSE total
    /\ UNCHANGED <<bag, n>>
    /\ hist' = Append(hist, [op |-> "bag_add_fill", i |-> fill + 1, exp |-> Obs])

Next == \/ \E x \in Pick(Names), vl \in Pick(ValLens), ml \in Pick(MetaLens), u \in Pick({1, 2}) : Insert(x, vl, ml, u)
        \/ \E x \in Pick(Names) : Remove(x)
        \/ RemoveFill \/ AddFill
NextSim == Len(hist) < SimLen /\ (Next \/ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Limits == Cardinality(Present(bag)) + fill <= MaxPairs /\ total <= MaxBytes
TotalExact == total = fill * FillLen + SumSizes(bag, Present(bag))
Inv == Limits /\ TotalExact
EmitT == Emit(hist')
EmitSim == Len(hist') = SimLen => Emit(hist')
=============================================================================
