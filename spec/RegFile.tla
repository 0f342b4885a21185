------------------------------ MODULE RegFile -------------------------------
(* Meaning of a registry document (RFC 9224 section 3, RFC 8521).             *)
(* services: sequence of services, each a sequence of string sequences.       *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANT BadURLs  \* URL strings that cannot be parsed (members of the URL vocabulary)

SeqFilter(s, P(_)) == SelectSeq(s, P)
WellFormed(services) == \A i \in DOMAIN services : Len(services[i]) \in {2, 3}
EntriesOf(s) == IF Len(s) = 3 THEN s[2] ELSE s[1]
UrlsOf(s) == LET raw == IF Len(s) = 3 THEN s[3] ELSE s[2] IN SelectSeq(raw, LAMBDA u : u \notin BadURLs)
\* services (by index) giving URLs for entry e
Naming(services, e) == {i \in DOMAIN services : Len(UrlsOf(services[i])) > 0 /\
                          \E j \in DOMAIN EntriesOf(services[i]) : EntriesOf(services[i])[j] = e}
Last(S) == CHOOSE x \in S : \A y \in S : x >= y
\* names: all entry names that can occur, sorted
FileExpect(services, meta, names) ==
    IF ~ WellFormed(services) THEN [st |-> "err", entries |-> <<>>, meta |-> <<>>, json |-> TRUE]
    ELSE LET used == SelectSeq(names, LAMBDA e : Naming(services, e) # {})
         IN [st |-> "ok", meta |-> meta, json |-> TRUE,
             entries |-> [i \in DOMAIN used |-> [entry |-> used[i], urls |-> UrlsOf(services[Last(Naming(services, used[i]))])]]]
FileErr == [st |-> "err", entries |-> <<>>, meta |-> <<>>, json |-> TRUE]
=============================================================================
