------------------------------ MODULE OtlpLife ------------------------------
(* The life of an OTLP/HTTP exporter (property O03).  Every export is one    *)
(* request, and succeeds exactly if the server answers it with a success     *)
(* status; after shutdown nothing is sent any more and export says so.  An   *)
(* export under way at shutdown is carried through.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Cover
CONSTANTS MaxOps, SimLen, Pick(_)
VARIABLES sig, down, sent, flight, n, hist
vars == <<sig, down, sent, flight, n, hist>>
View == <<sig, down, sent, flight, n>>
Success == {"200", "202", "204", "299"}
Failure == {"301", "304", "400", "401", "429", "500", "503", "599", "lost"}
Result(a) == IF a \in Success THEN "ok" ELSE "err"
Step(o, r, k) == hist' = Append(hist, o @@ [exp |-> [res |-> r, sent |-> k]])
Init == /\ sig \in {"traces", "logs", "metrics"} /\ down = FALSE /\ sent = 0 /\ flight = 0 /\ n = 0
        /\ \E p \in {"binary", "json"} : hist = <<[op |-> "otlp_new", sig |-> sig, p |-> p]>>
Export == \E a \in Pick(Success \cup Failure) :
  LET k == IF down THEN sent ELSE sent + 1 IN
  /\ sent' = k /\ Step([op |-> "otlp_export", a |-> a], IF down THEN "shutdown" ELSE Result(a), k)
  /\ UNCHANGED <<sig, down, flight>>
\* the exporter of spans is not shared while it exports
Begin == /\ sig # "traces" /\ ~down /\ flight = 0 /\ flight' = 1 /\ sent' = sent + 1
         /\ Step([op |-> "otlp_begin"], "pending", sent + 1) /\ UNCHANGED <<sig, down>>
Finish == /\ flight = 1 /\ flight' = 0
          /\ \E a \in Pick(Success \cup Failure) : Step([op |-> "otlp_finish", a |-> a], Result(a), sent)
          /\ UNCHANGED <<sig, down, sent>>
Shutdown == /\ down' = TRUE /\ Step([op |-> "otlp_shutdown"], IF down THEN "again" ELSE "ok", sent) /\ UNCHANGED <<sig, sent, flight>>
Next == n < MaxOps /\ n' = n + 1 /\ (Export \/ Begin \/ Finish \/ Shutdown)
NextSim == n < SimLen /\ n' = n + 1 /\ \E k \in Pick({1, 2, 3, 4, 5, 6}) :
           IF k = 1 /\ n > 3 THEN Shutdown ELSE IF k = 2 /\ flight = 1 THEN Finish
           ELSE IF k = 2 /\ sig # "traces" /\ ~down THEN Begin ELSE Export
(* After shutdown the number of requests stays what it was *)
Quiet == \A k \in 2..Len(hist) : \A m \in 2..Len(hist) :
           (hist[k].op = "otlp_shutdown" /\ k < m) => hist[m].exp.sent = hist[k].exp.sent
NeverOkAfter == \A k \in 2..Len(hist) : \A m \in 2..Len(hist) :
           (hist[k].op = "otlp_shutdown" /\ k < m /\ hist[m].op = "otlp_export") => hist[m].exp.res = "shutdown"
Inv == Quiet /\ NeverOkAfter
EmitT == Emit(hist')
EmitSim == n' < SimLen \/ Emit(hist')
=============================================================================
