---------------------------- MODULE AutoRequest -----------------------------
(* Which request an untyped query becomes (NewAutoRequest).                   *)
(* Texts are byte sequences. Left open: "http:" without "//", ports and user  *)
(* info in URLs without a path, and IPv6-mapped IPv4 networks.                *)
EXTENDS IpText
Http == <<104, 116, 116, 112, 58, 47, 47>>
Https == <<104, 116, 116, 112, 115, 58, 47, 47>>
IsUrl(t) == HasPrefix(Lower(t), Http) \/ HasPrefix(Lower(t), Https)
AfterScheme(t) == From(t, (IF HasPrefix(Lower(t), Https) THEN 8 ELSE 7) + 1)
EndsHost == {47, 63, 35}
RECURSIVE HostEnd(_, _)
HostEnd(r, i) == IF i > Len(r) \/ r[i] \in EndsHost THEN i - 1 ELSE HostEnd(r, i + 1)
Host(t) == LET r == AfterScheme(t) IN SubSeq(r, 1, HostEnd(r, 1))
\* everything from the path on, up to a query or fragment
RECURSIVE PathEnd(_, _)
PathEnd(r, i) == IF i > Len(r) \/ r[i] \in {63, 35} THEN i - 1 ELSE PathEnd(r, i + 1)
UrlPath(t) == LET r == AfterScheme(t) IN SubSeq(r, HostEnd(r, 1) + 1, PathEnd(r, HostEnd(r, 1) + 1))

Upper2(t) == Upper(t)
AsDigits(t) == IF HasPrefix(Upper(t), <<65, 83>>) THEN From(t, 3) ELSE t

Class(t) ==
    IF IsUrl(t) THEN (IF UrlPath(t) \in {<<>>, <<47>>} THEN "urldomain" ELSE "url")
    ELSE IF IP(t) # Bad THEN "ip"
    ELSE IF CIDR(t).b # Bad THEN "cidr"
    ELSE IF IsU32(AsDigits(t)) THEN "autnum"
    ELSE IF HasByte(t, 46) THEN "domain"
    ELSE "entity"

\* obs: [type, q, server]. Scheme letters may be lowered.
SameUrl(a, b) == Lower(SubSeq(a, 1, 8)) = Lower(SubSeq(b, 1, 8)) /\ From(a, 9) = From(b, 9)
AutoOk(t, obs) == LET c == Class(t) IN
    CASE c = "url"       -> obs.type = "url" /\ SameUrl(obs.server, t)
      [] c = "urldomain" -> obs.type = "domain" /\ obs.q = Host(t) /\ obs.server = <<>>
      [] c = "ip"        -> obs.type = "ip" /\ obs.server = <<>> /\ IP(obs.q) # Bad /\ Mapped(IP(obs.q)) = Mapped(IP(t))
      [] c = "cidr"      -> obs.type = "ip" /\ obs.server = <<>> /\ CIDR(obs.q) = CIDR(t)
      [] c = "autnum"    -> obs.type = "autnum" /\ obs.server = <<>> /\ AllDigits(obs.q) /\ StripZeros(obs.q) = StripZeros(AsDigits(t))
      [] c = "domain"    -> obs.type = "domain" /\ obs.q = t /\ obs.server = <<>>
      [] c = "entity"    -> obs.type = "entity" /\ obs.q = t /\ obs.server = <<>>
=============================================================================
