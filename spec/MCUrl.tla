------------------------------- MODULE MCUrl --------------------------------
(* Escaping byte by byte as a state machine: for every query text in the set, *)
(* the URL built from it is taken apart again into exactly that text, at its  *)
(* place, with nothing else affected. Every request is written out.           *)
EXTENDS RequestUrl, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS MaxLen
Types == {"autnum", "domain", "entity", "help", "ip", "nameserver", "domain-search", "domain-search-by-nameserver", "domain-search-by-nameserver-ip",
          "nameserver-search", "nameserver-search-by-ip", "entity-search", "entity-search-by-handle", "autnum-search"}
Special == {97, 47, 63, 35, 37, 32, 38, 61, 43, 64, 46, 195, 50}
Texts == UNION {[1..n -> Special] : n \in 0..MaxLen} \cup {<<b>> : b \in 0..255} \cup {<<97, b, 98>> : b \in 0..255}
Hs == <<104, 116, 116, 112, 115, 58, 47, 47>>   \* https://
Sx == Hs \o <<115, 46, 120>>                     \* https://s.x
Servers == <<Sx, Sx \o <<47>>, Sx \o <<47, 114>>, Sx \o <<47, 114, 47, 113, 47>>,
             Sx \o <<47, 97, 37, 50, 70, 98, 47>>,                       \* /a%2Fb/
             Sx \o <<47, 63, 107, 61, 118, 38, 110, 97, 109, 101, 61, 111>>, \* /?k=v&name=o
             Sx \o <<47, 114, 63, 107, 61, 118, 38, 107, 61, 119, 35, 102>>,  \* /r?k=v&k=w#f
             Sx \o <<58, 56, 47, 35, 102, 37, 50, 48>> >>                 \* :8/#f%20
Ps == <<<<>>, <<<<<<107>>, <<<<49>>>>>>>>, <<<<<<110, 97, 109, 101>>, <<<<112>>>>>>, <<<<122, 32, 38>>, <<<<61>>, <<38>>>>>>>>, <<<<<<107>>, <<>>>>>> >>
In(t, q, s, p) == [type |-> t, q |-> q, server |-> s, params |-> p]
Inputs == {In(t, q, Servers[1 + ((Len(q) + IF q = <<>> THEN 0 ELSE q[Len(q)]) % 8)], Ps[1 + ((IF q = <<>> THEN 0 ELSE q[1]) % 4)]) : t \in {"domain", "ip", "entity-search"}, q \in Texts}
    \cup {In(t, q, s, p) : t \in Types, q \in {<<97>>, <<97, 47, 50, 52>>, <<63, 38, 35>>, <<>>, <<37, 50, 102>>, <<47, 47>>}, s \in {Servers[i] : i \in DOMAIN Servers}, p \in {Ps[i] : i \in DOMAIN Ps}}
    \cup {In("url", <<97>>, s, p) : s \in {Servers[i] : i \in DOMAIN Servers}, p \in {Ps[i] : i \in DOMAIN Ps}}
    \cup {In(t, <<97>>, <<>>, <<>>) : t \in Types \cup {"url"}}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[in |-> x] : x \in Inputs}))

\* the escaping algorithm
Unreserved(b) == IsAlpha(b) \/ IsDigit(b) \/ b \in {45, 95, 46, 126, 36, 38, 43, 58, 61, 64}
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
EscByte(b) == IF Unreserved(b) THEN <<b>> ELSE <<PCT, HexDigit(b \div 16), HexDigit(b % 16)>>
VARIABLES q, pos, out
vars == <<q, pos, out>>
Init == q \in Texts /\ pos = 1 /\ out = <<>>
Next == pos <= Len(q) /\ out' = out \o EscByte(q[pos]) /\ pos' = pos + 1 /\ UNCHANGED q
Url == Sx \o <<47>> \o Bytes("domain") \o <<47>> \o out \o <<63, 107, 61, 118, 35, 102>>
Correct == pos > Len(q) =>
    LET p == ParseUrl(Url) IN
    /\ p.segs = <<<<>>, Bytes("domain"), q>> /\ p.base = Sx /\ p.frag = <<102>> /\ p.params = [n \in {<<107>>} |-> <<<<118>>>>]
=============================================================================
