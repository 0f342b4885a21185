------------------------------- MODULE MCDns --------------------------------
(* The label-stripping search as a state machine, checked against the         *)
(* declarative meaning for every registry and query within the bounds; and    *)
(* the same registries and queries written out with expected answers.         *)
EXTENDS DnsLookup, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS MaxLabels, MaxEntries, QueryLabels

La == <<97>>  Lb == <<98>>
LabelSet == {La, Lb, <<97, 98>>}
RECURSIVE Names(_)
Names(k) == IF k = 0 THEN {<<>>}
    ELSE IF k = 1 THEN LabelSet
    ELSE {x \o <<DOT>> \o y : x \in LabelSet, y \in Names(k - 1)}
Small == {<<97>>, <<98>>}
RECURSIVE Names2(_)
Names2(k) == IF k = 1 THEN Small ELSE {x \o <<DOT>> \o y : x \in Small, y \in Names2(k - 1)}
EntryNames == UNION {Names2(k) : k \in 1..MaxLabels} \cup {<<>>, <<97,98>>, <<98,DOT,97,98>>}
\* queries: all names, plus variants: trailing dot(s), upper case, empty label
Base == UNION {Names(k) : k \in 0..QueryLabels}
Queries == Base \cup {q \o <<DOT>> : q \in Base} \cup {Upper(q) : q \in Base}
           \cup {<<97, DOT, DOT, 98>>, <<DOT>>, <<DOT, DOT>>, <<DOT, 97>>, <<97, DOT, 98, DOT, DOT>>}
Url(i) == <<"http://u1.example/", "https://u2.example/r", "http://u3.example:8080", "https://u4.example/">>[i]
\* one service per entry
RegOf(S) == LET q == SetToSeq(S) IN [i \in DOMAIN q |-> [entries |-> <<q[i]>>, urls |-> <<Url(i), Url(4)>>]]
Registries == {RegOf(S) : S \in kSubset(MaxEntries, EntryNames) \cup kSubset(1, EntryNames) \cup {{}}}
\* the same entry in two services, several entries in one
Shared == {<<[entries |-> <<La, Lb>>, urls |-> <<Url(1)>>], [entries |-> <<<<97, DOT, 98>>, La>>, urls |-> <<Url(2)>>]>>,
           <<[entries |-> <<La>>, urls |-> <<Url(1), Url(2), Url(3)>>], [entries |-> <<La>>, urls |-> <<>>]>>}
QSeq == SetToSeq(Queries)
ASSUME ndJsonSerialize(IOEnv.OUT,
    SetToSeq({[in |-> [type |-> "dns", services |-> r, queries |-> QSeq],
               exp |-> [i \in DOMAIN QSeq |-> DnsExpect(r, QSeq[i])]] : r \in Registries \cup Shared}))

VARIABLES reg, query, fqdn, pc
vars == <<reg, query, fqdn, pc>>
Init == /\ reg \in (Registries \cup Shared) /\ query \in Queries
        /\ fqdn = Canon(query) /\ pc = "search"
Search == /\ pc = "search"
          /\ IF EntryOf(reg, fqdn) # 0 \/ fqdn = <<>>
             THEN pc' = "done" /\ UNCHANGED fqdn
             ELSE /\ pc' = "search"
                  /\ fqdn' = LET i == IndexOf(fqdn, DOT) IN IF i = 0 THEN <<>> ELSE From(fqdn, i + 1)
          /\ UNCHANGED <<reg, query>>
Next == Search
Result == LET e == EntryOf(reg, fqdn) IN Answer(Canon(query), fqdn, IF e = 0 THEN <<>> ELSE reg[e].urls)
Correct == pc = "done" => Result = DnsExpect(reg, query)
\* Soundness, stated on its own: a matching entry is a whole-label suffix of the query.
Sound == pc = "done" /\ Result.urls # <<>> => Result.entry \in NameSuffixes(Canon(query))
Progress == [][Len(fqdn') < Len(fqdn) \/ pc' = "done"]_vars
=============================================================================
