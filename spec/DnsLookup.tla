----------------------------- MODULE DnsLookup ------------------------------
(* Domain name bootstrap lookups (RFC 9224 section 4).                        *)
(* A registry is a sequence of services [entries, urls]; entries are texts.   *)
EXTENDS Text
DOT == 46

\* The map a registry document denotes: the last service naming an entry wins.
EntryOf(services, name) ==
    LET S == {i \in DOMAIN services : Len(services[i].urls) > 0 /\
                \E j \in DOMAIN services[i].entries : services[i].entries[j] = name}
    IN IF S = {} THEN 0 ELSE MaxOf(S)

Canon(q) == Lower(TrimSuffix(q, <<DOT>>))
\* A name's whole-label suffixes, itself and the root (empty) included.
NameSuffixes(n) == {n, <<>>} \cup {From(n, i + 1) : i \in Positions(n, DOT)}

Answer(q, e, urls) == [st |-> "ok", query |-> q, entry |-> e, urls |-> urls]

\* Declarative meaning: the longest suffix that has an entry.
DnsExpect(services, query) ==
    LET q == Canon(query)
        M == {s \in NameSuffixes(q) : EntryOf(services, s) # 0}
    IN IF M = {} THEN Answer(q, <<>>, <<>>)
       ELSE LET best == CHOOSE s \in M : \A t \in M : Len(s) >= Len(t)
            IN Answer(q, best, services[EntryOf(services, best)].urls)
=============================================================================
