------------------------------- MODULE MCAsn --------------------------------
(* Ranges sorted by lower bound and searched by bisection on the upper bound: *)
(* checked against the declarative meaning for every disjoint set of ranges   *)
(* over 0..N, and written out at several offsets in the 32-bit space.         *)
EXTENDS AsnLookup, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS N, MaxRanges, EmitRanges
Ranges == {<<a, b>> \in (0..N) \X (0..N) : a <= b}
Disjoint(S) == \A r, s \in S : r # s => r[2] < s[1] \/ s[2] < r[1]
Regs == {S \in UNION {kSubset(k, Ranges) : k \in 0..MaxRanges} : Disjoint(S)}
VARIABLES reg, q, lo, hi, pc
vars == <<reg, q, lo, hi, pc>>
Init == reg \in Regs /\ q \in 0..N /\ lo = 0 /\ hi = Cardinality(reg) /\ pc = "bisect"
Sorted == SortSeq(SetToSeq(reg), LAMBDA x, y : x[1] < y[1])
Bisect == /\ pc = "bisect" /\ lo < hi
          /\ LET m == (lo + hi) \div 2 IN
             IF q <= Sorted[m + 1][2] THEN hi' = m /\ UNCHANGED lo ELSE lo' = m + 1 /\ UNCHANGED hi
          /\ UNCHANGED <<reg, q, pc>>
Done == pc = "bisect" /\ lo >= hi /\ pc' = "done" /\ UNCHANGED <<reg, q, lo, hi>>
Next == Bisect \/ Done
Found == LET s == Sorted IN lo < Len(s) /\ s[lo + 1][1] <= q /\ q <= s[lo + 1][2]
Correct == pc = "done" => /\ Found <=> \E r \in reg : r[1] <= q /\ q <= r[2]
                          /\ Found => Sorted[lo + 1] \in {r \in reg : r[1] <= q /\ q <= r[2]}
-----------------------------------------------------------------------------
\* digit-sequence addition of a small number
RECURSIVE AddSmall(_, _)
AddSmall(d, k) == IF k = 0 THEN d ELSE
    IF d = <<>> THEN NatText(k) ELSE
    LET t == (d[Len(d)] - 48) + k IN AddSmall(SubSeq(d, 1, Len(d) - 1), t \div 10) \o <<48 + (t % 10)>>
Offsets == {<<48>>, <<54,53,53,51,49>>, <<50,49,52,55,52,56,51,54,52,53>>, <<52,50,57,52,57,54,55,50,56,57>>}
Num(o, k) == StripZeros(AddSmall(o, k))
Url(i) == <<"http://u1.example/", "https://u2.example/r", "http://u3.example:8080", "https://u4.example/">>[i]
EntryText(o, r, flip) == IF r[1] = r[2] THEN Num(o, r[1])
    ELSE IF flip THEN Num(o, r[2]) \o <<DASH>> \o Num(o, r[1]) ELSE Num(o, r[1]) \o <<DASH>> \o Num(o, r[2])
QPrefixes == <<<<>>, <<65, 83>>, <<97, 115>>, <<65, 115>>, <<48>>>>
QSeq(o) == [i \in 1..(N + 1) |-> QPrefixes[(i % 5) + 1] \o Num(o, i - 1)]
           \o <<<<>>, <<65,83>>, <<52,50,57,52,57,54,55,50,57,54>>, <<45,49>>, <<49,46,53>>, <<120,49>>, <<49,32>>, <<65,83,49,97>>>>
EmitRegs == {S \in UNION {kSubset(k, Ranges) : k \in 1..EmitRanges} : Disjoint(S)}
CaseFor(o, S) == LET s == SetToSeq(S) junk == <<[entries |-> <<<<97>>, <<49,45,50,45,51>>, <<45>>, <<>>, <<65,83,49>>>>, urls |-> <<"https://junk.example/">>]>>
                     sv == [i \in DOMAIN s |-> [entries |-> <<EntryText(o, s[i], (s[i][1] + i) % 2 = 0)>>, urls |-> <<Url(i), Url(4)>>]] \o junk
                 IN [in |-> [type |-> "asn", services |-> sv, queries |-> QSeq(o)],
                     exp |-> [i \in DOMAIN QSeq(o) |-> AsnExpect(sv, QSeq(o)[i])]]
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({CaseFor(o, S) : o \in Offsets, S \in EmitRegs}))
=============================================================================
