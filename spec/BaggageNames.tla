---------------------------- MODULE BaggageNames ----------------------------
(* Which names a baggage accepts (property P03): W3C tokens.  Names are     *)
(* sequences of code points.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Cover
VARIABLES hist
vars == <<hist>>
\* tchar, i.e. printable ASCII without the delimiters  ( ) , / : ; < = > ? @ [ \ ] { } "
Delims == {34, 40, 41, 44, 47, 58, 59, 60, 61, 62, 63, 64, 91, 92, 93, 123, 125}
TChar == (33..126) \ Delims
Valid(cs) == cs # <<>> /\ \A i \in 1..Len(cs) : cs[i] \in TChar
Codes == (0..127) \cup {160, 233, 8364, 128512}
Names == {<<>>} \cup {<<c>> : c \in Codes} \cup {<<97, c>> : c \in Codes} \cup {<<c, 97>> : c \in Codes}
         \cup {<<97, c, 97>> : c \in Codes}
Init == hist = <<>>
Next == hist = <<>> /\ \E x \in Names :
          hist' = <<[op |-> "bag_name", codes |-> x, exp |-> [ok |-> Valid(x)]]>>
Inv == TRUE
EmitT == Emit(hist')
=============================================================================
