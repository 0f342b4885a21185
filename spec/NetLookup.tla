----------------------------- MODULE NetLookup ------------------------------
(* IP bootstrap lookups (RFC 9224 section 5): longest prefix match.           *)
(* A network is [a |-> address bytes, len |-> prefix length].                 *)
EXTENDS Naturals, Sequences, FiniteSets, Integers

Pow2(n) == 2^n
\* the first n bits (n in 0..8) of byte b
TopBits(b, n) == b \div Pow2(8 - n)
PrefixEq(a, b, n) ==
    /\ \A i \in 1..(n \div 8) : a[i] = b[i]
    /\ (n % 8 = 0 \/ TopBits(a[n \div 8 + 1], n % 8) = TopBits(b[n \div 8 + 1], n % 8))
\* network n contains all of the queried network q
Covers(n, q) == n.len <= q.len /\ PrefixEq(n.a, q.a, n.len)
Masked(a, n) == [i \in DOMAIN a |-> IF i * 8 <= n THEN a[i] ELSE IF (i - 1) * 8 >= n THEN 0
                                    ELSE TopBits(a[i], n - (i - 1) * 8) * Pow2(8 - (n - (i - 1) * 8))]

NoEntry == [a |-> <<>>, len |-> -1]
\* Declarative meaning. nets: sequence of networks; url(i) is that of nets[i].
\* Only networks with a server are entries (Has).
LongestMatch(nets, Has(_), q) ==
    LET M == {i \in DOMAIN nets : Has(i) /\ Covers(nets[i], q)}
    IN IF M = {} THEN 0 ELSE CHOOSE i \in M : \A j \in M : nets[i].len >= nets[j].len
NetExpect(nets, urls(_), q) ==
    LET Has(j) == urls(j) # <<>>
        i == LongestMatch(nets, Has, q)
    IN IF i = 0 THEN [st |-> "ok", entry |-> NoEntry, urls |-> <<>>]
       ELSE [st |-> "ok", entry |-> [a |-> Masked(nets[i].a, nets[i].len), len |-> nets[i].len], urls |-> urls(i)]
NetError == [st |-> "err", entry |-> NoEntry, urls |-> <<>>]
=============================================================================
