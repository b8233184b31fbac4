----------------------------- MODULE LogRecords -----------------------------
(***************************************************************************)
(* Log records from logger to processors and exporters (property L03).     *)
(* A record is built field by field in a slot, emitted (or a clone of it)  *)
(* on this or on another thread, under a stack of contexts, and reaches a  *)
(* pipeline of a raw processor, optionally one that edits the record, a    *)
(* second raw processor, a simple exporter and a batching exporter.        *)
(* Field values are the numbers of the steps that set them; 0 is "unset".  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Cover
CONSTANTS Mods, Slots, Loggers, Bulk, MaxOps, MaxCtx, SimLen, Pick(_)
VARIABLES mod,   \* what the second processor does: none | attr | body | trace
          slots, \* slot -> record being built
          ctx,   \* stack of attached contexts
          batch, \* records accepted by the batching processor, not flushed yet
          n, hist
vars == <<mod, slots, ctx, batch, n, hist>>

NoTc == [src |-> "none", flags |-> "none"]
Blank(l) == [lg |-> l, ev |-> 0, target |-> 0, ts |-> 0, ots |-> 0, sevt |-> 0, sevn |-> 0, body |-> 0,
             attrs |-> <<>>, tc |-> NoTc]
Empty == Blank(0)
\* contexts: a span (by kind), or none; and whether telemetry is suppressed
Spans == {"on", "off", "rec", "RS", "RU"}
Base == [span |-> "none", sup |-> FALSE]
Cur == IF ctx = <<>> THEN Base ELSE ctx[Len(ctx)]
FlagsOf(s) == IF s \in {"on", "RS"} THEN "1" ELSE "0"
TcOf(c) == IF c.span = "none" THEN NoTc ELSE [src |-> c.span, flags |-> FlagsOf(c.span)]

\* the record as it is handed to the processors under context c
Stamped(r, c) == [r EXCEPT !.ots = IF @ = 0 THEN -1 ELSE @,      \* -1: the time of emission
                           !.tc = IF @.src = "none" THEN TcOf(c) ELSE @]
Edited(r) == CASE mod = "attr" -> [r EXCEPT !.attrs = Append(@, 999)]
               [] mod = "body" -> [r EXCEPT !.body = 999]
               [] mod = "trace" -> [r EXCEPT !.tc = [src |-> "edited", flags |-> "1"]]
               [] OTHER -> r
Push(step) == hist' = Append(hist, step)

Init == /\ mod \in Mods
        /\ slots = [s \in Slots |-> Empty] /\ ctx = <<>> /\ batch = <<>> /\ n = 1
        /\ hist = <<[op |-> "log_init", mod |-> mod, exp |-> [ok |-> TRUE]]>>
Create(s, l) == /\ slots[s] = Empty
                /\ slots' = [slots EXCEPT ![s] = Blank(l)]
                /\ Push([op |-> "log_create", s |-> s, lg |-> l, exp |-> [ok |-> TRUE]])
                /\ UNCHANGED <<ctx, batch>>
Fields == {"ev", "target", "ts", "ots", "sevt", "sevn", "body"}
Val(f) == IF f = "sevn" THEN 1 + (n % 24) ELSE n
Set(s, f) == /\ slots[s] # Empty
             /\ slots' = [slots EXCEPT ![s][f] = Val(f)]
             /\ Push([op |-> "log_set", s |-> s, f |-> f, x |-> Val(f), exp |-> [ok |-> TRUE]])
             /\ UNCHANGED <<ctx, batch>>
AddAttr(s) == /\ slots[s] # Empty
              /\ slots' = [slots EXCEPT ![s].attrs = Append(@, 100 * n)]
              /\ Push([op |-> "log_attr", s |-> s, x |-> 100 * n, exp |-> [ok |-> TRUE]])
              /\ UNCHANGED <<ctx, batch>>
AddAttrs(s, k) == /\ slots[s] # Empty
                  /\ slots' = [slots EXCEPT ![s].attrs = @ \o [j \in 1..k |-> 100 * n + j]]
                  /\ Push([op |-> "log_attrs", s |-> s, x |-> 100 * n, k |-> k, exp |-> [ok |-> TRUE]])
                  /\ UNCHANGED <<ctx, batch>>
SetTrace(s, fl) == /\ slots[s] # Empty
                   /\ slots' = [slots EXCEPT ![s].tc = [src |-> "explicit", flags |-> fl]]
                   /\ Push([op |-> "log_trace", s |-> s, flags |-> fl, exp |-> [ok |-> TRUE]])
                   /\ UNCHANGED <<ctx, batch>>
Emission(s, how, where) ==
    LET r == slots[s]
        c == IF where = "here" THEN Cur ELSE Base
        a == Stamped(r, c)
        b == Edited(a)
    IN /\ r # Empty
       /\ slots' = IF how = "own" THEN [slots EXCEPT ![s] = Empty] ELSE slots
       /\ batch' = IF c.sup THEN batch ELSE Append(batch, b)
       /\ Push([op |-> "log_emit", s |-> s, how |-> how, where |-> where,
                exp |-> IF c.sup THEN [first |-> <<>>, second |-> <<>>, simple |-> <<>>]
                        ELSE [first |-> <<a>>, second |-> <<b>>, simple |-> <<b>>]])
       /\ UNCHANGED ctx
Flush == /\ batch # <<>> /\ batch' = <<>>
         /\ Push([op |-> "log_flush", exp |-> [batch |-> batch]])
         /\ UNCHANGED <<slots, ctx>>
Attach(k) == /\ Len(ctx) < MaxCtx
             /\ ctx' = Append(ctx, CASE k \in Spans -> [Cur EXCEPT !.span = k]       \* current with this span
                                     [] k = "fresh" -> Base                           \* an empty context
                                     [] k = "value" -> Cur                            \* current with some value
                                     [] k = "sup" -> [Cur EXCEPT !.sup = TRUE])
             /\ Push([op |-> "log_attach", k |-> k, exp |-> [ok |-> TRUE]])
             /\ UNCHANGED <<slots, batch>>
Detach == /\ ctx # <<>> /\ ctx' = SubSeq(ctx, 1, Len(ctx) - 1)
          /\ Push([op |-> "log_detach", exp |-> [ok |-> TRUE]])
          /\ UNCHANGED <<slots, batch>>
\* an ended span that is still the active one keeps correlating
EndSpan == /\ Cur.span \in {"on", "rec"}
           /\ Push([op |-> "log_end_span", exp |-> [ok |-> TRUE]])
           /\ UNCHANGED <<slots, ctx, batch>>

Act == \/ \E s \in Pick(Slots), l \in Pick(Loggers) : Create(s, l)
       \/ \E s \in Pick(Slots), f \in Pick(Fields) : Set(s, f)
       \/ \E s \in Pick(Slots) : AddAttr(s)
       \/ \E s \in Pick(Slots), k \in Pick(Bulk) : AddAttrs(s, k)
       \/ \E s \in Pick(Slots), f \in Pick({"none", "0", "1"}) : SetTrace(s, f)
       \/ \E s \in Pick(Slots), h \in Pick({"own", "clone"}), w \in Pick({"here", "elsewhere"}) : Emission(s, h, w)
       \/ Flush
       \/ \E k \in Pick(Spans \cup {"fresh", "value", "sup"}) : Attach(k)
       \/ Detach
       \/ EndSpan
Next == n <= MaxOps /\ Act /\ n' = n + 1 /\ UNCHANGED mod
NextSim == Len(hist) < SimLen /\ (Next \/ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

\* the tags of a record's fields, for the view: which fields are set, not when
Shape(r) == <<r.lg, r.ev # 0, r.target # 0, r.ts # 0, r.ots # 0, r.sevt # 0, r.sevn # 0, r.body # 0, Len(r.attrs), r.tc>>
View == <<mod, [s \in Slots |-> Shape(slots[s])], ctx, [i \in 1..Len(batch) |-> Shape(batch[i])], n>>

\* L03 on the model: what an exporter gets differs from what was built only by stamp and edit
Kept == \A i \in 1..Len(batch) : batch[i].ots # 0 /\ (batch[i].tc.src = "none" => batch[i].tc.flags = "none")
Last == Append(hist', [op |-> "log_flush", exp |-> [batch |-> batch']])
EmitT == Emit(Last)
EmitSim == Len(hist') = SimLen => Emit(Last)
=============================================================================
