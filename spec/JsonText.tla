------------------------------ MODULE JsonText ------------------------------
(* JSON texts (RFC 8259) as byte sequences, and their trees.                  *)
EXTENDS Str
Ws == {32, 9, 10, 13}
NoParse == [ok |-> FALSE, at |-> 0, v |-> <<"z">>, open |-> FALSE]
Got(at, v, open) == [ok |-> TRUE, at |-> at, v |-> v, open |-> open]
ChrOf(b) == IF b < 128 THEN Chars[b + 1] ELSE "?"
DigitB(b) == b >= 48 /\ b <= 57
HexB(b) == DigitB(b) \/ (b >= 65 /\ b <= 70) \/ (b >= 97 /\ b <= 102)
HexV(b) == IF DigitB(b) THEN b - 48 ELSE IF b >= 97 THEN b - 87 ELSE b - 55
Byte(t, i) == IF i \in DOMAIN t THEN t[i] ELSE 0
RECURSIVE SkipWs(_, _)
SkipWs(t, i) == IF Byte(t, i) \in Ws THEN SkipWs(t, i + 1) ELSE i
Word(t, i, w) == i + Len(w) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(w) - 1) = w
RECURSIVE Chs(_)
Chs(bs) == IF bs = <<>> THEN "" ELSE ChrOf(bs[1]) \o Chs(Tail(bs))

\* a string body from position i up to its closing quote
RECURSIVE PStr(_, _, _)
PStr(t, i, acc) ==
    IF i > Len(t) \/ t[i] < 32 THEN NoParse
    ELSE IF t[i] = 34 THEN Got(i + 1, <<"s", acc>>, FALSE)
    ELSE IF t[i] # 92 THEN PStr(t, i + 1, acc \o ChrOf(t[i]))
    ELSE LET c == Byte(t, i + 1) IN
         IF c \in {34, 92, 47} THEN PStr(t, i + 2, acc \o ChrOf(c))
         ELSE IF c = 98 THEN PStr(t, i + 2, acc \o ChrOf(8)) ELSE IF c = 102 THEN PStr(t, i + 2, acc \o ChrOf(12))
         ELSE IF c = 110 THEN PStr(t, i + 2, acc \o ChrOf(10)) ELSE IF c = 114 THEN PStr(t, i + 2, acc \o ChrOf(13))
         ELSE IF c = 116 THEN PStr(t, i + 2, acc \o ChrOf(9))
         ELSE IF c = 117 /\ i + 5 <= Len(t) /\ \A k \in 2..5 : HexB(t[i + k])
         THEN LET x == ((HexV(t[i + 2]) * 16 + HexV(t[i + 3])) * 16 + HexV(t[i + 4])) * 16 + HexV(t[i + 5]) IN PStr(t, i + 6, acc \o ChrOf(x))
         ELSE NoParse
RECURSIVE Run(_, _)
Run(t, i) == IF DigitB(Byte(t, i)) THEN Run(t, i + 1) ELSE i      \* behind the digits at i
PNum(t, i) ==
    LET a == IF Byte(t, i) = 45 THEN i + 1 ELSE i
        b == IF Byte(t, a) = 48 THEN a + 1 ELSE Run(t, a)
        c == IF Byte(t, b) = 46 THEN Run(t, b + 1) ELSE b
        s == IF Byte(t, c) \in {101, 69} THEN (IF Byte(t, c + 1) \in {43, 45} THEN c + 2 ELSE c + 1) ELSE 0
        d == IF s = 0 THEN c ELSE Run(t, s)
    IN IF b = a \/ (Byte(t, b) = 46 /\ c = b + 1) \/ (s # 0 /\ d = s) THEN NoParse
       \* numbers beyond the range of doubles are left open
       ELSE Got(d, <<"n", Chs(SubSeq(t, i, d - 1))>>, (s # 0 /\ d - s > 2) \/ d - i > 200)

RECURSIVE PVal(_, _)
RECURSIVE PElems(_, _, _, _)
RECURSIVE PMembers(_, _, _, _)
PVal(t, i0) ==
    LET i == SkipWs(t, i0)
        c == Byte(t, i) IN
    IF i > Len(t) THEN NoParse
    ELSE IF c = 34 THEN PStr(t, i + 1, "")
    ELSE IF c = 45 \/ DigitB(c) THEN PNum(t, i)
    ELSE IF Word(t, i, <<110, 117, 108, 108>>) THEN Got(i + 4, <<"z">>, FALSE)
    ELSE IF Word(t, i, <<116, 114, 117, 101>>) THEN Got(i + 4, <<"b", TRUE>>, FALSE)
    ELSE IF Word(t, i, <<102, 97, 108, 115, 101>>) THEN Got(i + 5, <<"b", FALSE>>, FALSE)
    ELSE IF c = 91 THEN (IF Byte(t, SkipWs(t, i + 1)) = 93 THEN Got(SkipWs(t, i + 1) + 1, <<"a", <<>>>>, FALSE) ELSE PElems(t, i + 1, <<>>, FALSE))
    ELSE IF c = 123 THEN (IF Byte(t, SkipWs(t, i + 1)) = 125 THEN Got(SkipWs(t, i + 1) + 1, <<"o", <<>>>>, FALSE) ELSE PMembers(t, i + 1, <<>>, FALSE))
    ELSE NoParse
PElems(t, i, acc, open) ==
    LET r == PVal(t, i)
        j == SkipWs(t, r.at) IN
    IF ~r.ok THEN NoParse
    ELSE IF Byte(t, j) = 44 THEN PElems(t, j + 1, Append(acc, r.v), open \/ r.open)
    ELSE IF Byte(t, j) = 93 THEN Got(j + 1, <<"a", Append(acc, r.v)>>, open \/ r.open)
    ELSE NoParse
PMembers(t, i0, acc, open) ==
    LET i == SkipWs(t, i0)
        k == IF Byte(t, i) = 34 THEN PStr(t, i + 1, "") ELSE NoParse
        j == SkipWs(t, k.at)
        r == IF k.ok /\ Byte(t, j) = 58 THEN PVal(t, j + 1) ELSE NoParse
        e == SkipWs(t, r.at) IN
    IF ~r.ok THEN NoParse
    ELSE IF Byte(t, e) = 44 THEN PMembers(t, e + 1, Append(acc, <<k.v[2], r.v>>), open \/ r.open)
    ELSE IF Byte(t, e) = 125 THEN Got(e + 1, <<"o", Append(acc, <<k.v[2], r.v>>)>>, open \/ r.open)
    ELSE NoParse
Parse(t) == LET r == PVal(t, 1) IN IF r.ok /\ SkipWs(t, r.at) > Len(t) THEN r ELSE NoParse

-----------------------------------------------------------------------------
\* Writing a tree (of ASCII texts) as a compact JSON text.
RECURSIVE AsBytes(_)
AsBytes(s) == IF s = "" THEN <<>> ELSE <<Ord(At(s, 1)) - 1>> \o AsBytes(Drop(s, 1))
Hex4(b) == <<92, 117, 48, 48, 48 + (b \div 16), IF b % 16 < 10 THEN 48 + (b % 16) ELSE 87 + (b % 16)>>
RECURSIVE EscStr(_)
EscStr(bs) == IF bs = <<>> THEN <<>> ELSE (IF bs[1] \in {34, 92} THEN <<92, bs[1]>> ELSE IF bs[1] < 32 THEN Hex4(bs[1]) ELSE <<bs[1]>>) \o EscStr(Tail(bs))
Quoted(s) == <<34>> \o EscStr(AsBytes(s)) \o <<34>>
RECURSIVE Write(_)
RECURSIVE WriteAll(_)
RECURSIVE WriteMs(_)
Write(v) == CASE v[1] = "z" -> <<110, 117, 108, 108>> [] v[1] = "b" -> (IF v[2] THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>)
    [] v[1] = "n" -> AsBytes(v[2]) [] v[1] = "s" -> Quoted(v[2]) [] v[1] = "a" -> <<91>> \o WriteAll(v[2]) \o <<93>> [] v[1] = "o" -> <<123>> \o WriteMs(v[2]) \o <<125>>
WriteAll(vs) == IF vs = <<>> THEN <<>> ELSE Write(vs[1]) \o (IF Len(vs) > 1 THEN <<44>> ELSE <<>>) \o WriteAll(Tail(vs))
WriteMs(ms) == IF ms = <<>> THEN <<>> ELSE Quoted(ms[1][1]) \o <<58>> \o Write(ms[1][2]) \o (IF Len(ms) > 1 THEN <<44>> ELSE <<>>) \o WriteMs(Tail(ms))
=============================================================================
