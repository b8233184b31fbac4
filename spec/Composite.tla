------------------------------ MODULE Composite ------------------------------
(***************************************************************************)
(* Composite propagation (property P06): a fold over the parts.            *)
(* Carrier: for every format absent, valid or malformed.  "p" and "q" are  *)
(* user-defined propagators that note in the context that they ran.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Cover
CONSTANTS MaxParts, SimLen, Pick(_)
VARIABLES hist
vars == <<hist>>

SpanParts == {"tc", "b3s", "b3m", "jg"}
Parts == SpanParts \cup {"bag", "p", "q"}
Formats == SpanParts \cup {"bag"}
St == {"absent", "valid", "bad"}
Orders == UNION {[1..k -> Parts] : k \in 0..MaxParts}
Carriers == [Formats -> St]
Bases == {[span |-> s, bag |-> b, ran |-> <<>>] : s \in {"none", "base"}, b \in {"none", "base"}}

\* b3s and b3m read both B3 headers, the single one first
ExtractOne(cx, p, ca) ==
    CASE p = "tc" -> IF ca.tc = "valid" THEN [cx EXCEPT !.span = "tc"] ELSE cx
      [] p = "jg" -> IF ca.jg = "valid" THEN [cx EXCEPT !.span = "jg"] ELSE cx
      [] p \in {"b3s", "b3m"} -> IF ca.b3s = "valid" THEN [cx EXCEPT !.span = "b3s"]
                                 ELSE IF ca.b3m = "valid" THEN [cx EXCEPT !.span = "b3m"] ELSE cx
      [] p = "bag" -> IF ca.bag = "valid" THEN [cx EXCEPT !.bag = "bag"]
                      ELSE IF ca.bag = "bad" THEN [cx EXCEPT !.bag = "none"] ELSE cx
      [] OTHER -> [cx EXCEPT !.ran = Append(@, p)]
RECURSIVE ExtractAll(_, _, _)
ExtractAll(cx, ps, ca) == IF ps = <<>> THEN cx ELSE ExtractAll(ExtractOne(cx, Head(ps), ca), Tail(ps), ca)

Fields(p) == CASE p = "tc" -> {"traceparent", "tracestate"}
               [] p = "jg" -> {"uber-trace-id"}
               [] p = "b3s" -> {"b3"}
               [] p = "b3m" -> {"x-b3-traceid", "x-b3-spanid", "x-b3-sampled", "x-b3-flags"}
               [] p = "bag" -> {"baggage"}
               [] p = "p" -> {"x-p"}
               [] p = "q" -> {"x-q", "traceparent"}
InSet(ps) == {ps[i] : i \in 1..Len(ps)}
AllFields(ps) == UNION {Fields(p) : p \in InSet(ps)}

Extract(ps, nest, cx, ca) ==
    [op |-> "c_extract", parts |-> ps, nest |-> nest, base |-> [span |-> cx.span, bag |-> cx.bag], carrier |-> ca,
     exp |-> [cx |-> ExtractAll(cx, ps, ca), marker |-> TRUE]]
\* what the headers of each part are after injecting a context with span and baggage
Inject(ps, nest, cx) ==
    [op |-> "c_inject", parts |-> ps, nest |-> nest, base |-> [span |-> cx.span, bag |-> cx.bag],
     exp |-> [same |-> TRUE,
              keep |-> TRUE,
              fields |-> AllFields(ps), nfields |-> Cardinality(AllFields(ps)),
              ran |-> SelectSeq(ps, LAMBDA p : p \in {"p", "q"})]]

Init == hist = <<>>
Next == /\ hist = <<>>
        /\ \/ \E ps \in Pick(Orders), n \in Pick({"flat", "nested"}), b \in Pick(Bases), ca \in Pick(Carriers) :
                hist' = <<Extract(ps, n, b, ca)>>
           \/ \E ps \in Pick(Orders), n \in Pick({"flat", "nested"}), b \in Pick(Bases) : hist' = <<Inject(ps, n, b)>>
\* extraction never touches a concern that none of the parts is about
Frame == hist # <<>> /\ hist[1].op = "c_extract" =>
    /\ (InSet(hist[1].parts) \cap SpanParts = {} => hist[1].exp.cx.span = hist[1].base.span)
    /\ ("bag" \notin InSet(hist[1].parts) => hist[1].exp.cx.bag = hist[1].base.bag)
Inv == Frame
EmitT == Emit(hist')
=============================================================================
