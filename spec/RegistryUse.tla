---------------------------- MODULE RegistryUse -----------------------------
(* A parsed registry in use: any number of lookups, by several askers at the  *)
(* same time, each going through its own search step by step on the shared    *)
(* registry. Whatever the order and interleaving, each answer is the one the  *)
(* document and the question determine, and the registry stays as it is.      *)
(* Shown on the label-stripping search; the orders in which questions are     *)
(* asked are written out for every registry type.                             *)
EXTENDS DnsLookup, TLC, Json, IOUtils, SequencesExt, FiniteSets
CONSTANTS Procs, MaxAsked, OrderLen

B(s) == s
Sv(es, u) == [entries |-> es, urls |-> u]
a == 97  b == 98
DnsReg == <<Sv(<<<<a>>, <<b, DOT, a>>>>, <<"http://s1.example/", "https://s2.example/">>), Sv(<<<<a, DOT, b>>>>, <<"//s3.example/">>)>>
DnsQ == <<<<b, DOT, a>>, <<a, DOT, b, DOT, a>>, <<a>>, <<b>>, <<66, DOT, 65, DOT>>, <<b, DOT, a, DOT, b>>>>
AsnReg == <<Sv(<<<<49, 45, 53>>, <<57>>>>, <<"http://s1.example/", "https://s1.example/">>), Sv(<<<<54, 45, 56>>>>, <<"https://s2.example/">>)>>
AsnQ == <<<<53>>, <<54>>, <<57>>, <<49, 48>>, <<65, 83, 56>>, <<120>>>>
TagReg == <<Sv(<<<<65>>, <<66>>>>, <<"http://s1.example/", "https://s1.example/">>), Sv(<<<<97>>>>, <<"https://s2.example/">>)>>
TagQ == <<<<120, 45, 65>>, <<120, 45, 97>>, <<120, 45, 66>>, <<65>>, <<45, 65, 45>>, <<120, 45, 120>>>>
N4(x, y, l) == [a |-> <<x, y, 0, 0>>, len |-> l]
NetReg == <<N4(10, 0, 8), N4(10, 64, 10), N4(10, 96, 11), N4(11, 0, 8)>>
NetQ == <<[a |-> <<10, 1, 0, 0>>, len |-> 16], [a |-> <<10, 65, 0, 0>>, len |-> 32], [a |-> <<10, 97, 3, 0>>, len |-> 24],
          [a |-> <<10, 0, 0, 0>>, len |-> 7], [a |-> <<11, 255, 0, 0>>, len |-> 16], [a |-> <<9, 0, 0, 0>>, len |-> 32]>>
NetUrls(i) == <<"https://n" \o ToString(i) \o ".example/", "http://n.example/", "https://m" \o ToString(i) \o ".example/">>
Q(q) == [a |-> q.a, len |-> q.len, style |-> 0, plain |-> FALSE]

Orders == UNION {[1..n -> 1..6] : n \in 2..OrderLen}
Cases ==
    {[type |-> r[1], services |-> r[2], queries |-> r[3], order |-> o, conc |-> 0] : o \in Orders,
        r \in {<<"dns", DnsReg, DnsQ>>, <<"asn", AsnReg, AsnQ>>, <<"tag", TagReg, TagQ>>}}
    \cup {[ver |-> 4, nets |-> [i \in DOMAIN NetReg |-> [a |-> NetReg[i].a, len |-> NetReg[i].len, style |-> 0, urls |-> NetUrls(i)]], extra |-> <<>>,
           queries |-> [i \in DOMAIN NetQ |-> Q(NetQ[i])], order |-> o, conc |-> 0] : o \in Orders}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
-----------------------------------------------------------------------------
VARIABLES reg,      \* the registry
          search,   \* what each asker is looking for: <<>> or <<question, name left to try>>
          asked, answers
vars == <<reg, search, asked, answers>>
Questions == {DnsQ[i] : i \in DOMAIN DnsQ}
Init == reg = DnsReg /\ search = [p \in Procs |-> <<>>] /\ asked = 0 /\ answers = {}
Ask(p) == /\ search[p] = <<>> /\ asked < MaxAsked
          /\ \E q \in Questions : search' = [search EXCEPT ![p] = <<q, Canon(q)>>]
          /\ asked' = asked + 1 /\ UNCHANGED <<reg, answers>>
Answered(p, x) == answers' = answers \cup {<<search[p][1], x>>} /\ search' = [search EXCEPT ![p] = <<>>]
Step(p) == /\ search[p] # <<>>
           /\ LET q == search[p][1]
                  n == search[p][2]
                  d == Positions(n, DOT)
              IN IF EntryOf(reg, n) # 0 THEN Answered(p, Answer(Canon(q), n, reg[EntryOf(reg, n)].urls))
                 ELSE IF n = <<>> THEN Answered(p, Answer(Canon(q), <<>>, <<>>))
                 ELSE /\ search' = [search EXCEPT ![p] = <<q, IF d = {} THEN <<>> ELSE From(n, 1 + CHOOSE i \in d : \A j \in d : i <= j)>>]
                      /\ UNCHANGED answers
           /\ UNCHANGED <<reg, asked>>
Next == \E p \in Procs : Ask(p) \/ Step(p)
Determined == \A x \in answers : x[2] = DnsExpect(DnsReg, x[1])
Unchanged == reg = DnsReg
=============================================================================
