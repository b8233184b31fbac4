-------------------------------- MODULE Chars --------------------------------
(* Strings as sequences of characters.  "^" stands for a two byte character  *)
(* (U+00E9) and "`" for a four byte one (U+1F600); the harness substitutes    *)
(* them.                                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]

RECURSIVE Join(_)
Join(cs) == IF cs = <<>> THEN "" ELSE
            IF Len(cs) = 1 THEN cs[1] ELSE
            LET h == Len(cs) \div 2 IN Join(SubSeq(cs, 1, h)) \o Join(SubSeq(cs, h + 1, Len(cs)))

RECURSIVE Rep(_, _)
Rep(s, k) == IF k = 0 THEN "" ELSE IF k = 1 THEN s
             ELSE LET h == Rep(s, k \div 2) IN IF k % 2 = 0 THEN h \o h ELSE h \o h \o s

Count(cs, c) == Cardinality({i \in 1..Len(cs) : cs[i] = c})
Bytes(cs) == Len(cs) + Count(cs, "^") + 3 * Count(cs, "`")

Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
LHex == Digit \cup {"a", "b", "c", "d", "e", "f"}
UHex == {"A", "B", "C", "D", "E", "F"}
Hex == LHex \cup UHex
LAlpha == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r",
           "s", "t", "u", "v", "w", "x", "y", "z"}
UAlpha == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R",
           "S", "T", "U", "V", "W", "X", "Y", "Z"}
LowerOf(c) == CASE c = "A" -> "a" [] c = "B" -> "b" [] c = "C" -> "c" [] c = "D" -> "d"
                [] c = "E" -> "e" [] c = "F" -> "f" [] OTHER -> c

AllIn(cs, S) == \A i \in 1..Len(cs) : cs[i] \in S
AllZero(cs) == AllIn(cs, {"0"})

\* split at a separator character
RECURSIVE Split(_, _)
Split(cs, sep) ==
    LET at == {i \in 1..Len(cs) : cs[i] = sep} IN
    IF at = {} THEN <<cs>>
    ELSE LET k == CHOOSE i \in at : \A j \in at : i <= j
         IN <<SubSeq(cs, 1, k - 1)>> \o Split(SubSeq(cs, k + 1, Len(cs)), sep)
\* ... dropping one empty part at the end
SplitTerm(cs, sep) == LET p == Split(cs, sep) IN
                      IF p[Len(p)] = <<>> THEN SubSeq(p, 1, Len(p) - 1) ELSE p

RECURSIVE TrimL(_)
TrimL(cs) == IF cs # <<>> /\ cs[1] = " " THEN TrimL(Tail(cs)) ELSE cs
RECURSIVE TrimR(_)
TrimR(cs) == IF cs # <<>> /\ cs[Len(cs)] = " " THEN TrimR(SubSeq(cs, 1, Len(cs) - 1)) ELSE cs
Trim(cs) == TrimR(TrimL(cs))

\* all strings obtained from cs by one edit with the characters of A
Edits(cs, A) ==
    {SubSeq(cs, 1, i - 1) \o <<c>> \o SubSeq(cs, i + 1, Len(cs)) : i \in 1..Len(cs), c \in A}
    \cup {SubSeq(cs, 1, i - 1) \o SubSeq(cs, i + 1, Len(cs)) : i \in 1..Len(cs)}
    \cup {SubSeq(cs, 1, i) \o <<c>> \o SubSeq(cs, i + 1, Len(cs)) : i \in 0..Len(cs), c \in A}
=============================================================================
