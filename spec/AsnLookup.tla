----------------------------- MODULE AsnLookup ------------------------------
(* AS number bootstrap lookups (RFC 9224 section 5.3). Entries and queries    *)
(* are texts; numbers are digit sequences.                                    *)
EXTENDS Text
DASH == 45

\* "12", "12-20" and (tolerated) "20-12"; anything else is ignored.
ValidRange(e) == LET p == Split(e, DASH) IN Len(p) \in {1, 2} /\ \A i \in DOMAIN p : IsU32(p[i])
LoHi(e) == LET p == Split(e, DASH)
               a == StripZeros(p[1])  b == StripZeros(p[Len(p)])
           IN IF NumLE(a, b) THEN <<a, b>> ELSE <<b, a>>
In(n, r) == NumLE(r[1], n) /\ NumLE(n, r[2])
AS == <<65, 83>>
RangeText(r) == IF r[1] = r[2] THEN AS \o r[1] ELSE AS \o r[1] \o <<DASH>> \o AS \o r[2]

\* The query: decimal digits after any leading letters a and s.
QueryNum(q) == TrimLeftSet(Lower(q), {97, 115})
\* Services as in DnsLookup. Disjoint ranges: at most one matches.
AsnExpect(services, query) ==
    LET n == QueryNum(query)
        M == {<<i, j>> \in UNION {{i} \X DOMAIN services[i].entries : i \in DOMAIN services} :
                /\ Len(services[i].urls) > 0
                /\ ValidRange(services[i].entries[j])
                /\ In(StripZeros(n), LoHi(services[i].entries[j]))}
    IN IF ~ IsU32(n) THEN [st |-> "err", query |-> <<>>, entry |-> <<>>, urls |-> <<>>]
       ELSE IF M = {} THEN [st |-> "ok", query |-> StripZeros(n), entry |-> <<>>, urls |-> <<>>]
       ELSE LET m == CHOOSE m \in M : \A k \in M : m[1] >= k[1]
            IN [st |-> "ok", query |-> StripZeros(n), entry |-> RangeText(LoHi(services[m[1]].entries[m[2]])), urls |-> services[m[1]].urls]
=============================================================================
