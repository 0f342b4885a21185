------------------------------- MODULE IpText -------------------------------
(* The text forms of IP addresses and networks, as byte sequences.            *)
EXTENDS Text
LOCAL INSTANCE Integers
Bad == <<>>          \* not an address

Octet(s) == AllDigits(s) /\ Len(s) <= 3 /\ (Len(s) > 1 => s[1] # 48) /\ DigitsVal(s) <= 255
IPv4(s) == LET p == Split(s, 46) IN
    IF Len(p) = 4 /\ \A i \in 1..4 : Octet(p[i]) THEN [i \in 1..4 |-> DigitsVal(p[i])] ELSE Bad

Group(s) == Len(s) \in 1..4 /\ \A i \in DOMAIN s : IsHex(s[i])
RECURSIVE HexNum(_)
HexNum(s) == IF s = <<>> THEN 0 ELSE HexNum(SubSeq(s, 1, Len(s) - 1)) * 16 + HexVal(s[Len(s)])
GroupBytes(s) == LET n == HexNum(s) IN <<n \div 256, n % 256>>
\* bytes of colon-separated groups; tail: the last may be an embedded IPv4 address
Groups(s, tail) ==
    IF s = <<>> THEN [ok |-> TRUE, b |-> <<>>]
    ELSE LET p == Split(s, 58)
             n == Len(p)
             v4 == IF tail /\ HasByte(p[n], 46) THEN IPv4(p[n]) ELSE Bad
             m == IF v4 # Bad THEN n - 1 ELSE n
         IN IF \A i \in 1..m : Group(p[i])
            THEN [ok |-> TRUE, b |-> Flatten([i \in 1..m |-> GroupBytes(p[i])]) \o v4]
            ELSE [ok |-> FALSE, b |-> <<>>]
Zeros(n) == [i \in 1..n |-> 0]
IPv6(s) ==
    LET D == {i \in 1..(Len(s) - 1) : s[i] = 58 /\ s[i + 1] = 58}
    IN IF D = {} THEN LET g == Groups(s, TRUE) IN IF g.ok /\ Len(g.b) = 16 THEN g.b ELSE Bad
       ELSE LET i == MinOf(D)
                lft == Groups(SubSeq(s, 1, i - 1), FALSE)
                rgt == Groups(From(s, i + 2), TRUE)
            IN IF lft.ok /\ rgt.ok /\ Len(lft.b) + Len(rgt.b) <= 14
               THEN lft.b \o Zeros(16 - Len(lft.b) - Len(rgt.b)) \o rgt.b ELSE Bad
IP(s) == IF HasByte(s, 58) THEN IPv6(s) ELSE IPv4(s)
Mapped(b) == IF Len(b) = 4 THEN Zeros(10) \o <<255, 255>> \o b ELSE b

RECURSIVE P2(_)
P2(n) == IF n = 0 THEN 1 ELSE 2 * P2(n - 1)
MaskBytes(b, n) == [i \in DOMAIN b |-> IF i * 8 <= n THEN b[i] ELSE IF (i - 1) * 8 >= n THEN 0
                        ELSE LET k == P2(8 - (n - (i - 1) * 8)) IN (b[i] \div k) * k]
NoNet == [b |-> Bad, n |-> 0]
\* "address/length" with the host bits cleared
CIDR(s) == LET i == IndexOf(s, 47) IN
    IF i = 0 THEN NoNet
    ELSE LET a == IP(SubSeq(s, 1, i - 1)) m == From(s, i + 1) IN
         IF a = Bad \/ ~ AllDigits(m) \/ Len(StripZeros(m)) > 3 \/ Len(m) > 6 THEN NoNet
         ELSE LET n == DigitsVal(StripZeros(m)) IN
              IF n > Len(a) * 8 THEN NoNet ELSE [b |-> MaskBytes(a, n), n |-> n]
=============================================================================
