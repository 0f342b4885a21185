-------------------------------- MODULE Str ---------------------------------
(* Text as TLA+ strings (for whole JSON documents, where texts are mostly     *)
(* compared and copied), with the character order and decimal numbers.        *)
EXTENDS Naturals, Sequences, FiniteSets, Json
Chars == JsonDeserialize("chars.json")          \* in code point order
OrdF == [c \in {Chars[i] : i \in DOMAIN Chars} |-> CHOOSE i \in DOMAIN Chars : Chars[i] = c]
At(s, i) == SubSeq(s, i, i)
Ord(c) == OrdF[c]
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
AllDigits(s) == s # "" /\ \A i \in 1..Len(s) : At(s, i) \in Digits
RECURSIVE FindIn(_, _, _)
FindIn(s, S, i) == IF i > Len(s) THEN 0 ELSE IF At(s, i) \in S THEN i ELSE FindIn(s, S, i + 1)
RECURSIVE StrLess(_, _)
StrLess(a, b) == IF b = "" THEN FALSE ELSE IF a = "" THEN TRUE
    ELSE IF At(a, 1) = At(b, 1) THEN StrLess(Drop(a, 1), Drop(b, 1)) ELSE Ord(At(a, 1)) < Ord(At(b, 1))
RECURSIVE SortStrs(_)
SortStrs(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x = y \/ StrLess(x, y) IN <<m>> \o SortStrs(S \ {m})
RECURSIVE JoinStr(_, _)
JoinStr(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o JoinStr(Tail(ss), sep)
RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN "" ELSE s \o Rep(s, n - 1)

-----------------------------------------------------------------------------
\* decimal digit strings
RECURSIVE NoLead(_)
NoLead(s) == IF Len(s) > 1 /\ At(s, 1) = "0" THEN NoLead(Drop(s, 1)) ELSE s
RECURSIVE NoTrail(_)
NoTrail(s) == IF s # "" /\ At(s, Len(s)) = "0" THEN NoTrail(Take(s, Len(s) - 1)) ELSE s
NumStrLE(a, b) == a = b \/ Len(a) < Len(b) \/ (Len(a) = Len(b) /\ StrLess(a, b))    \* without leading zeros
RECURSIVE SmallNat(_)
SmallNat(s) == IF s = "" THEN 0 ELSE SmallNat(Take(s, Len(s) - 1)) * 10 + (Ord(At(s, Len(s))) - Ord("0"))

\* A JSON number: sign, integer part and fraction of its decimal expansion.
\* JSON numbers are IEEE doubles; those used here have at most 15 significant
\* digits (so the shortest decimal that denotes the double is the number itself)
\* or are listed with the double they stand for.
Doubles == [x \in {"18446744073709551615", "18446744073709551616", "18446744073709549568", "9007199254740993"} |->
    CASE x \in {"18446744073709551615", "18446744073709551616"} -> <<"18446744073709551616", "18446744073709552000">>
      [] x = "18446744073709549568" -> <<"18446744073709549568", "18446744073709550000">>
      [] x = "9007199254740993" -> <<"9007199254740992", "9007199254740992">>]
Num(lit) ==
    LET neg == At(lit, 1) = "-"
        b == IF neg THEN Drop(lit, 1) ELSE lit
        e == FindIn(b, {"e", "E"}, 1)
        m == IF e = 0 THEN b ELSE Take(b, e - 1)
        x == IF e = 0 THEN "0" ELSE Drop(b, e)
        xneg == At(x, 1) = "-"
        xd == SmallNat(IF At(x, 1) \in {"-", "+"} THEN Drop(x, 1) ELSE x)
        p == FindIn(m, {"."}, 1)
        i == IF p = 0 THEN m ELSE Take(m, p - 1)
        f == IF p = 0 THEN "" ELSE Drop(m, p)
        i2 == IF xneg THEN (IF xd >= Len(i) THEN "0" ELSE Take(i, Len(i) - xd)) ELSE i \o (IF xd >= Len(f) THEN f \o Rep("0", xd - Len(f)) ELSE Take(f, xd))
        f2 == IF xneg THEN (IF xd >= Len(i) THEN Rep("0", xd - Len(i)) \o i ELSE Drop(i, Len(i) - xd)) \o f ELSE (IF xd >= Len(f) THEN "" ELSE Drop(f, xd))
    IN IF lit \in DOMAIN Doubles THEN [neg |-> FALSE, int |-> Doubles[lit][1], frac |-> "", text |-> Doubles[lit][2]]
       ELSE [neg |-> neg, int |-> NoLead(i2), frac |-> NoTrail(f2),
             text |-> (IF neg THEN "-" ELSE "") \o NoLead(i2) \o (IF NoTrail(f2) = "" THEN "" ELSE "." \o NoTrail(f2))]
NumText(lit) == Num(lit).text
IsZero(n) == n.int = "0" /\ n.frac = ""
=============================================================================
