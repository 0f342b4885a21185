-------------------------------- MODULE Text --------------------------------
(* Text as sequences of byte values, and natural numbers of any size as       *)
(* sequences of decimal digits (TLC integers have 32 bits).                   *)
EXTENDS Naturals, Sequences, FiniteSets

Byte == 0..255
LowerByte(b) == IF b >= 65 /\ b <= 90 THEN b + 32 ELSE b
UpperByte(b) == IF b >= 97 /\ b <= 122 THEN b - 32 ELSE b
Lower(s) == [i \in DOMAIN s |-> LowerByte(s[i])]
Upper(s) == [i \in DOMAIN s |-> UpperByte(s[i])]
IsDigit(b) == b >= 48 /\ b <= 57
IsAlpha(b) == (b >= 65 /\ b <= 90) \/ (b >= 97 /\ b <= 122)
IsHex(b) == IsDigit(b) \/ (b >= 65 /\ b <= 70) \/ (b >= 97 /\ b <= 102)
HexVal(b) == IF IsDigit(b) THEN b - 48 ELSE IF b >= 97 THEN b - 87 ELSE b - 55

HasByte(s, b) == \E i \in DOMAIN s : s[i] = b
HasPrefix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
HasSuffix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
From(s, i) == SubSeq(s, i, Len(s))
TrimSuffix(s, p) == IF HasSuffix(s, p) THEN SubSeq(s, 1, Len(s) - Len(p)) ELSE s
TrimPrefix(s, p) == IF HasPrefix(s, p) THEN From(s, Len(p) + 1) ELSE s
Positions(s, b) == {i \in DOMAIN s : s[i] = b}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
\* First and last position of byte b in s, 0 if none.
IndexOf(s, b) == IF HasByte(s, b) THEN MinOf(Positions(s, b)) ELSE 0
LastIndexOf(s, b) == IF HasByte(s, b) THEN MaxOf(Positions(s, b)) ELSE 0

RECURSIVE Split(_, _)
Split(s, b) == LET i == IndexOf(s, b) IN
    IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o Split(From(s, i + 1), b)

RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN <<>>
    ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flatten(Tail(ss))

\* Drops leading bytes that are in set B.
RECURSIVE TrimLeftSet(_, _)
TrimLeftSet(s, B) == IF s # <<>> /\ s[1] \in B THEN TrimLeftSet(Tail(s), B) ELSE s

-----------------------------------------------------------------------------
\* Decimal numbers as ASCII digit sequences without leading zeros.
AllDigits(s) == s # <<>> /\ \A i \in DOMAIN s : IsDigit(s[i])
RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 1 /\ s[1] = 48 THEN StripZeros(Tail(s)) ELSE s
\* a <= b for canonical digit sequences
NumLE(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b)
    ELSE a = b \/ LET i == CHOOSE i \in DOMAIN a : a[i] # b[i] /\ \A j \in 1..(i-1) : a[j] = b[j]
                  IN a[i] < b[i]
MaxU32 == <<52,50,57,52,57,54,55,50,57,53>>  \* 4294967295
\* Text that denotes an unsigned 32-bit number in decimal (leading zeros allowed).
IsU32(s) == AllDigits(s) /\ NumLE(StripZeros(s), MaxU32)

RECURSIVE DigitsVal(_)
DigitsVal(s) == IF s = <<>> THEN 0 ELSE DigitsVal(SubSeq(s, 1, Len(s) - 1)) * 10 + (s[Len(s)] - 48)
RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN <<48 + n>> ELSE NatText(n \div 10) \o <<48 + (n % 10)>>
=============================================================================
