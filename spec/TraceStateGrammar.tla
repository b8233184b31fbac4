-------------------------- MODULE TraceStateGrammar --------------------------
(***************************************************************************)
(* Which keys and values a trace state accepts (property P02).  Keys valid *)
(* under the W3C level 1 grammar must be accepted, strings that are not    *)
(* keys even under the wider level 2 grammar must be rejected; values with *)
(* a comma or an equals sign, or too long, must be rejected, values valid  *)
(* under the grammar accepted.  In between the choice is left open.        *)
(***************************************************************************)
EXTENDS Chars, Json, Cover
VARIABLES hist
vars == <<hist>>

KeyChar == LAlpha \cup Digit \cup {"_", "-", "*", "/"}
SimpleKey(cs) == cs # <<>> /\ cs[1] \in LAlpha /\ AllIn(cs, KeyChar) /\ Len(cs) <= 256
TenantKey(cs) ==
    LET p == Split(cs, "@") IN
    /\ Len(p) = 2
    /\ p[1] # <<>> /\ p[1][1] \in LAlpha \cup Digit /\ AllIn(p[1], KeyChar) /\ Len(p[1]) <= 241
    /\ p[2] # <<>> /\ p[2][1] \in LAlpha /\ AllIn(p[2], KeyChar) /\ Len(p[2]) <= 14
KeyL1(cs) == SimpleKey(cs) \/ TenantKey(cs)
KeyL2(cs) == cs # <<>> /\ Len(cs) <= 256 /\ cs[1] \in LAlpha \cup Digit /\ AllIn(cs, KeyChar \cup {"@"})

ValueMust(cs) == Bytes(cs) <= 256 /\ AllIn(cs, LAlpha \cup Digit \cup UAlpha \cup {" ", "/", "@", ":", "~"})
                 /\ (cs = <<>> \/ cs[Len(cs)] # " ")
ValueMustNot(cs) == Bytes(cs) > 256 \/ \E i \in 1..Len(cs) : cs[i] \in {",", "="}

A1 == {"a", "z", "0", "9", "A", "_", "-", "*", "/", "@", " ", ",", "=", "^", ":", "~"}
Strs(n, A) == UNION {[1..k -> A] : k \in 0..n}
LongKeys == {Rep("a", 255), Rep("a", 256), Rep("a", 257), "a" \o Rep("0", 255), "a" \o Rep("0", 256),
             Rep("a", 255) \o "^", Rep("t", 241) \o "@" \o Rep("s", 14), Rep("t", 200) \o "@s",
             "0@" \o Rep("s", 14), "foo@" \o Rep("s", 13), "foo@" \o Rep("s", 14), "foo@s0-_*/", "0@a0", "9a@z"}
Keys == Strs(2, A1) \cup Strs(3, {"a", "0", "@", "_", "A"}) \cup Strs(4, {"a", "@", "0"})
        \cup {Chars(k) : k \in LongKeys}
LongVals == {Rep("v", 255), Rep("v", 256), Rep("v", 257), Rep("v", 255) \o "^", Rep("v", 255) \o ",",
             Rep("v", 255) \o "=", "x=y", "x,y"}
Vals == Strs(2, {"a", "Z", "0", " ", ",", "=", "/", "@", ":", "~"}) \cup {Chars(v) : v \in LongVals}

\* tried through insert, from_key_value, delete and (as one list member) the header parser
Key(cs, verdict) == [op |-> "ts_key", key |-> Join(cs), exp |-> [ok |-> verdict]]
Val(cs, verdict) == [op |-> "ts_value", value |-> Join(cs), parse |-> ~\E i \in 1..Len(cs) : cs[i] \in {",", "="},
                     exp |-> [ok |-> verdict]]
\* a header member is split at its first "=" and the header at ","
ParseSafe(cs) == ~\E i \in 1..Len(cs) : cs[i] \in {",", "="}

Init == hist = <<>>
Next == /\ hist = <<>>
        /\ \/ \E k \in {k \in Keys : KeyL1(k)} : hist' = <<Key(k, TRUE)>>
           \/ \E k \in {k \in Keys : ~KeyL2(k)} : hist' = <<Key(k, FALSE)>>
           \/ \E v \in {v \in Vals : ValueMust(v)} : hist' = <<Val(v, TRUE)>>
           \/ \E v \in {v \in Vals : ValueMustNot(v)} : hist' = <<Val(v, FALSE)>>
Spec == Init /\ [][Next]_vars
Inv == \A k \in Keys : KeyL1(k) => KeyL2(k)
EmitT == Emit(hist')
=============================================================================
