----------------------------- MODULE TagLookup ------------------------------
(* Entity handle bootstrap lookups (RFC 8521): the service tag is the text    *)
(* after the last hyphen.                                                     *)
EXTENDS Text
DASH == 45
TagEntry(services, tag) ==
    LET S == {i \in DOMAIN services : Len(services[i].urls) > 0 /\
                \E j \in DOMAIN services[i].entries : services[i].entries[j] = tag}
    IN IF S = {} THEN 0 ELSE MaxOf(S)
TagExpect(services, q) ==
    LET k == LastIndexOf(q, DASH)
        tag == From(q, k + 1)
        e == IF k = 0 \/ k = Len(q) THEN 0 ELSE TagEntry(services, tag)
    IN [st |-> "ok", query |-> q, entry |-> IF e = 0 THEN <<>> ELSE tag, urls |-> IF e = 0 THEN <<>> ELSE services[e].urls]
=============================================================================
