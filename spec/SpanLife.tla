------------------------------ MODULE SpanLife ------------------------------
(***************************************************************************)
(* The life of spans (properties T03 and T06): what is recorded, limits    *)
(* and dropped counts, the end, and what the processors are told.          *)
(*                                                                         *)
(* A tag is a sequence of small numbers that identifies an attribute,      *)
(* event, link or name; the harness turns it into a string.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Cover

CONSTANTS LAttr, LEv, LLink, LEvAttr, LLinkAttr,   \* span limits
          MaxSpans, MaxOps, NAttr, OnStart, SimLen, Pick(_)

VARIABLES spans,   \* all spans started so far
          down,    \* the provider has been shut down
          n,       \* number of operations so far (gives fresh tags)
          hist
vars == <<spans, down, n, hist>>

Min(a, b) == IF a < b THEN a ELSE b
Max0(a) == IF a < 0 THEN 0 ELSE a
Take(q, k) == SubSeq(q, 1, Min(k, Len(q)))

(* ---- recording under limits ------------------------------------------------ *)
Tags(x, k) == [j \in 1..k |-> <<x, j>>]
Item(x, k, lim) == [tag |-> x, attrs |-> Take(Tags(x, k), lim), da |-> Max0(k - lim)]
Exc(x, lim) == [tag |-> "exception", attrs |-> Take(Tags(x, 1), lim), da |-> Max0(1 - lim), ts |-> "auto"]
AddAttr(s, t) == IF Len(s.attrs) < LAttr THEN [s EXCEPT !.attrs = Append(@, t), !.xa = @ + 1]
                 ELSE [s EXCEPT !.da = @ + 1, !.xa = @ + 1]
AddAttrs(s, ts) ==
    LET room == Max0(LAttr - Len(s.attrs)) IN
    [s EXCEPT !.attrs = @ \o Take(ts, room), !.da = @ + Max0(Len(ts) - room), !.xa = @ + Len(ts)]
PutEvent(s, e) ==
    IF Len(s.events) < LEv THEN [s EXCEPT !.events = Append(@, e), !.xe = @ + 1]
    ELSE [s EXCEPT !.de = @ + 1, !.xe = @ + 1]
AddEvent(s, x, k, ts) == PutEvent(s, Item(x, k, LEvAttr) @@ [ts |-> ts])
AddEventB(s, x, k) == AddEvent(s, x, k, "t2")
AddLink(s, x, k) ==
    IF Len(s.links) < LLink THEN [s EXCEPT !.links = Append(@, Item(x, k, LLinkAttr)), !.xl = @ + 1]
    ELSE [s EXCEPT !.dl = @ + 1, !.xl = @ + 1]
RECURSIVE AddMany(_, _, _, _, _)
AddMany(s, F(_, _, _), x, ks, j) ==
    IF j > Len(ks) THEN s ELSE AddMany(F(s, <<x, j>>, ks[j]), F, x, ks, j + 1)
\* Ok is final, unset never replaces anything, otherwise the last one counts
SetStatus(s, st) == IF s.status = "ok" \/ st = "unset" THEN s ELSE [s EXCEPT !.status = st]

Data(s) == [name |-> s.name, attrs |-> s.attrs, da |-> s.da, events |-> s.events, de |-> s.de,
            links |-> s.links, dl |-> s.dl, status |-> s.status, kind |-> s.kind,
            start |-> s.start, end |-> s.end, sampled |-> s.dec = "sample"]
Live(s) == s.state = "live"

Init == /\ spans = <<>> /\ down = FALSE /\ n = 0
        /\ hist = <<[op |-> "span_init", lims |-> <<LAttr, LEv, LLink, LEvAttr, LLinkAttr>>, onstart |-> OnStart,
                     exp |-> [recording |-> <<>>, reports |-> <<>>]]>>

\* what the two processors are told by the step that makes spans[i] into s
Reports(i, s) == <<[proc |-> 1, span |-> i, data |-> Data(s)], [proc |-> 2, span |-> i, data |-> Data(s)]>>
Do(i, s, r, reports) ==
    /\ spans' = [spans EXCEPT ![i] = s]
    /\ n' = n + 1
    /\ hist' = Append(hist, r @@ [i |-> i, x |-> n,
                 exp |-> [recording |-> [j \in 1..Len(spans') |-> Live(spans'[j])], reports |-> reports]])

Statuses == {"unset", "ok", "err_a", "err_b"}
Start(dec, own, ba, be, bl, bst, sa, st, en, kind) ==
    /\ Len(spans) < MaxSpans
    /\ LET i == Len(spans) + 1
           e0 == [state |-> IF dec = "drop" THEN "ended" ELSE "live", dec |-> dec, own |-> own, name |-> n,
                  attrs |-> <<>>, da |-> 0, xa |-> 0, events |-> <<>>, de |-> 0, xe |-> 0,
                  links |-> <<>>, dl |-> 0, xl |-> 0, status |-> bst, kind |-> kind,
                  start |-> st, end |-> en]
           s1 == AddAttrs(e0, Tags(<<n, 1>>, ba) \o Tags(<<n, 2>>, sa))
           s2 == AddMany(s1, AddEventB, <<n, 3>>, be, 1)
           s3 == AddMany(s2, AddLink, <<n, 4>>, bl, 1)
           s4 == IF OnStart THEN AddAttr(s3, <<<<n, 5>>, 1>>) ELSE s3
           s0 == IF down \/ dec = "drop" THEN [e0 EXCEPT !.state = "ended"] ELSE s4
       IN /\ spans' = Append(spans, s0)
          /\ n' = n + 1
          /\ hist' = Append(hist, [op |-> "start", dec |-> dec, own |-> own, ba |-> ba, be |-> be, bl |-> bl, bst |-> bst,
                                   sa |-> sa, st |-> st, en |-> en, kind |-> kind, x |-> n, i |-> i,
                                   exp |-> [recording |-> [j \in 1..i |-> Live(spans'[j])], reports |-> <<>>]])
    /\ UNCHANGED down

Rec(i, s, r) == Do(i, IF Live(spans[i]) THEN s ELSE spans[i], r, <<>>) /\ UNCHANGED down
SetAttr(i) == Rec(i, AddAttr(spans[i], <<n, 1>>), [op |-> "set_attribute"])
SetAttrs(i, k) == Rec(i, AddAttrs(spans[i], Tags(n, k)), [op |-> "set_attributes", k |-> k])
Event(i, k, ts) == Rec(i, AddEvent(spans[i], n, k, ts), [op |-> "add_event", k |-> k, ts |-> ts])
Err(i) == Rec(i, PutEvent(spans[i], Exc(n, LEvAttr)), [op |-> "record_error"])
Link(i, k) == spans[i].own = "own" /\ Rec(i, AddLink(spans[i], n, k), [op |-> "add_link", k |-> k])
Status(i, st) == Rec(i, SetStatus(spans[i], st), [op |-> "set_status", st |-> st])
Name(i) == Rec(i, [spans[i] EXCEPT !.name = n], [op |-> "update_name"])
\* the first end counts; `gone` spans have been dropped altogether
EndAt(i, how) ==
    LET s == spans[i]
        t == CASE how = "end_at" -> "t3" [] how = "end_at1" -> "t1" [] how = "end_at0" -> "t0" [] how = "end" -> "auto"
               [] how = "drop" -> IF s.end = "none" THEN "auto" ELSE s.end
        e == [s EXCEPT !.state = IF how = "drop" THEN "gone" ELSE "ended", !.end = t]
    IN /\ Do(i, IF Live(s) THEN e ELSE IF how = "drop" THEN [s EXCEPT !.state = "gone"] ELSE s,
             [op |-> "end", how |-> how], IF Live(s) /\ ~down THEN Reports(i, e) ELSE <<>>)
       /\ UNCHANGED down
Shutdown == /\ ~down /\ down' = TRUE /\ n' = n + 1
            /\ hist' = Append(hist, [op |-> "shutdown", x |-> n,
                         exp |-> [recording |-> [j \in 1..Len(spans) |-> Live(spans[j])], reports |-> <<>>]])
            /\ UNCHANGED spans

Seqs == {<<>>, <<0>>, <<NAttr>>, <<1, NAttr>>, <<NAttr, 0, 1>>}
Next == /\ n < MaxOps
        /\ \/ \E dec \in Pick({"sample", "record", "drop"}), own \in Pick({"own", "cx"}),
                 ba \in Pick({0, 1, NAttr}), be \in Pick(Seqs), bl \in Pick(Seqs), bst \in Pick({"unset", "err_a", "ok"}),
                 sa \in Pick({0, NAttr}), st \in Pick({"auto", "t1"}), en \in Pick({"none", "t2"}),
                 kind \in Pick({"none", "server", "producer"}) :
                   Start(dec, own, ba, be, bl, bst, sa, st, en, kind)
           \/ \E i \in {i \in 1..Len(spans) : spans[i].state # "gone"} :
                \/ SetAttr(i)
                \/ \E k \in Pick({0, 1, NAttr}) : SetAttrs(i, k)
                \/ \E k \in Pick(0..NAttr), ts \in Pick({"auto", "t2"}) : Event(i, k, ts)
                \/ Err(i)
                \/ \E k \in Pick(0..NAttr) : Link(i, k)
                \/ \E st \in Pick(Statuses) : Status(i, st)
                \/ Name(i)
                \/ \E how \in Pick({"end", "end_at", "end_at1", "end_at0", "drop"}) : EndAt(i, how)
           \/ Shutdown
\* exhaustive search: starting options are varied one at a time, and hist-free states merged
Start1 == \/ \E dec \in {"sample", "record", "drop"}, own \in {"own", "cx"} :
                Start(dec, own, 0, <<>>, <<>>, "unset", 0, "auto", "none", "none")
          \/ \E ba \in {0, 1, NAttr}, sa \in {0, NAttr} : Start("sample", "own", ba, <<>>, <<>>, "unset", sa, "auto", "none", "none")
          \/ \E be \in Seqs, bl \in Seqs : Start("sample", "own", 0, be, bl, "unset", 0, "auto", "none", "none")
          \/ \E bst \in {"err_a", "ok"}, st \in {"auto", "t1"}, en \in {"none", "t2"}, kind \in {"none", "server"} :
                Start("sample", "cx", 0, <<>>, <<>>, bst, 0, st, en, kind)
NextBfs == /\ n < MaxOps
           /\ \/ Start1
              \/ \E i \in {i \in 1..Len(spans) : spans[i].state # "gone"} :
                \/ SetAttr(i)
                \/ SetAttrs(i, NAttr)
                \/ \E k \in {0, NAttr} : Event(i, k, "auto")
                \/ Err(i)
                \/ \E k \in {0, NAttr} : Link(i, k)
                \/ \E st \in Statuses : Status(i, st)
                \/ Name(i)
                \/ \E how \in {"end", "end_at", "end_at1", "drop"} : EndAt(i, how)
              \/ Shutdown
NextSim == Len(hist) < SimLen /\ (Next \/ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Small(s) == <<s.state, s.dec, s.own, Len(s.attrs), s.da > 0, [j \in 1..Len(s.events) |-> s.events[j].da > 0], s.de > 0,
              [j \in 1..Len(s.links) |-> s.links[j].da > 0], s.dl > 0, s.status, s.start, s.end>>
View == <<[i \in 1..Len(spans) |-> Small(spans[i])], down, n>>

\* T06: kept plus dropped is what was added, kept is within the limits and comes first
Accounting == \A i \in 1..Len(spans) : LET s == spans[i] IN
    /\ Len(s.attrs) <= LAttr /\ Len(s.events) <= LEv /\ Len(s.links) <= LLink
    /\ Len(s.attrs) + s.da = s.xa /\ Len(s.events) + s.de = s.xe /\ Len(s.links) + s.dl = s.xl
    /\ (s.da > 0 => Len(s.attrs) = LAttr) /\ (s.de > 0 => Len(s.events) = LEv) /\ (s.dl > 0 => Len(s.links) = LLink)
    /\ \A j \in 1..Len(s.events) : Len(s.events[j].attrs) <= LEvAttr
    /\ \A j \in 1..Len(s.links) : Len(s.links[j].attrs) <= LLinkAttr
\* T03: at most one report per span and processor
RECURSIVE AllReports(_)
AllReports(h) == IF h = <<>> THEN <<>> ELSE Head(h).exp.reports \o AllReports(Tail(h))
Once == LET r == AllReports(hist) IN
        \A a, b \in 1..Len(r) : a # b => ~(r[a].proc = r[b].proc /\ r[a].span = r[b].span)
Inv == Accounting /\ Once
\* every behaviour ends with all spans being dropped, which shows what they recorded
Dropped(s) == [s EXCEPT !.end = IF @ = "none" THEN "auto" ELSE @]
RECURSIVE DropReports(_)
DropReports(i) == IF i > Len(spans') THEN <<>>
                  ELSE (IF Live(spans'[i]) /\ ~down' THEN Reports(i, Dropped(spans'[i])) ELSE <<>>) \o DropReports(i + 1)
Final == Append(hist', [op |-> "drop_all", exp |-> [recording |-> <<>>, reports |-> DropReports(1)]])
EmitT == Emit(Final)
EmitSim == Len(hist') = SimLen => Emit(Final)
=============================================================================
