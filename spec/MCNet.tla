------------------------------- MODULE MCNet --------------------------------
(* The bucketed binary search of the implementation as a state machine: one   *)
(* bucket per prefix length, visited in any order (Go map iteration), each    *)
(* sorted by address and searched for the first network that contains the     *)
(* query or lies behind it. Checked against longest prefix match for every    *)
(* registry and query over W-bit addresses; every registry and query is also  *)
(* written out, embedded at several bit offsets of real addresses.            *)
EXTENDS NetLookup, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS W, MaxNets
SSS == 1..MaxNets
\* W-bit networks, as 1-byte addresses with W significant high bits
AllNets == {[a |-> <<p * Pow2(8 - n)>>, len |-> n] : n \in 0..W, p \in 0..(Pow2(W) - 1)} 
Nets == {x \in AllNets : x.a[1] < 256 /\ Masked(x.a, x.len) = x.a}
Regs == UNION {kSubset(k, Nets) : k \in 0..MaxNets}
NetLE(x, y) == x.a[1] <= y.a[1]
SortedBucket(S) == SortSeq(SetToSeq(S), LAMBDA x, y : x.a[1] < y.a[1])

-----------------------------------------------------------------------------
VARIABLES reg, q, todo, best, pc
vars == <<reg, q, todo, best, pc>>
Lens(S) == {x.len : x \in S}
Init == /\ reg \in Regs /\ q \in Nets
        /\ todo = Lens(reg) /\ best = NoEntry /\ pc = "scan"
BestLen == IF best.len < 0 THEN 0 ELSE best.len
\* sort.Search: smallest index satisfying the predicate, by bisection
RECURSIVE Bisect(_, _, _, _)
Bisect(s, P(_), lo, hi) == IF lo >= hi THEN lo ELSE
    LET m == (lo + hi) \div 2 IN IF P(s[m + 1]) THEN Bisect(s, P, lo, m) ELSE Bisect(s, P, m + 1, hi)
ScanBucket(len) ==
    /\ pc = "scan" /\ len \in todo
    /\ todo' = todo \ {len}
    /\ LET s == SortedBucket({x \in reg : x.len = len})
           i == Bisect(s, LAMBDA x : PrefixEq(x.a, q.a, len) \/ x.a[1] >= q.a[1], 0, Len(s))
       IN best' = IF len < BestLen \/ len > q.len THEN best
                  ELSE IF i = Len(s) \/ ~ PrefixEq(s[i + 1].a, q.a, len) THEN best ELSE s[i + 1]
    /\ UNCHANGED <<reg, q, pc>>
Done == pc = "scan" /\ todo = {} /\ pc' = "done" /\ UNCHANGED <<reg, q, todo, best>>
Next == Done \/ \E len \in todo : ScanBucket(len)
\* Refinement: whatever the order, the result is the longest match.
Correct == pc = "done" =>
    LET s == SetToSeq(reg) i == LongestMatch(s, LAMBDA j : TRUE, q) IN best = IF i = 0 THEN NoEntry ELSE s[i]
Sound == best # NoEntry => best \in reg /\ Covers(best, q)

-----------------------------------------------------------------------------
\* Embedding of a W-bit network at bit offset off of a real address: the
\* address agrees with the fixed base address on its first off bits.
Base4 == <<203, 157, 90, 77>>
Base6 == <<42, 3, 176, 193, 16, 229, 90, 61, 77, 131, 8, 250, 163, 5, 92, 119>>
\* value of bits i.. as a bit sequence
BitsOf(a, n) == [k \in 1..n |-> (a[(k - 1) \div 8 + 1] \div Pow2(7 - ((k - 1) % 8))) % 2]
RECURSIVE ByteOf(_, _)
ByteOf(b, k) == IF k > 8 THEN 0 ELSE b[k] * Pow2(8 - k) + ByteOf(b, k + 1)
Bytes(b) == [i \in 1..(Len(b) \div 8) |-> ByteOf(SubSeq(b, (i - 1) * 8 + 1, i * 8), 1)]
\* total = 32 or 128; bits behind the prefix are zero
Embed(base, total, off, n) ==
    LET nb == BitsOf(n.a, n.len)
        bb == BitsOf(base, off)
        all == bb \o nb \o [k \in 1..(total - off - n.len) |-> 0]
    IN [a |-> Bytes(all), len |-> off + n.len]
CONSTANTS Offs4, Offs6
ReqNets == SetToSeq(Nets)
CaseFor(ver, base, total, off, S) ==
    LET nets == [i \in DOMAIN S |-> Embed(base, total, off, S[i])]
        qs == [i \in DOMAIN ReqNets |-> Embed(base, total, off, ReqNets[i])]
        U(i) == <<"http://n" \o ToString(i) \o ".example/", "https://m.example/">>
    IN [in |-> [ver |-> ver, extra |-> <<>>,
                nets |-> [i \in DOMAIN nets |-> [a |-> nets[i].a, len |-> nets[i].len, style |-> i, urls |-> U(i)]],
                queries |-> [i \in DOMAIN qs |-> [a |-> qs[i].a, len |-> qs[i].len, style |-> i, plain |-> qs[i].len = total]]],
        exp |-> [i \in DOMAIN qs |-> NetExpect(nets, U, qs[i])]]
CONSTANT EmitNets
EmitRegs == UNION {kSubset(k, Nets) : k \in {1, EmitNets}}
ASSUME ndJsonSerialize(IOEnv.OUT,
    SetToSeq({CaseFor(4, Base4, 32, o, SetToSeq(S)) : o \in Offs4, S \in EmitRegs}
        \cup {CaseFor(6, Base6, 128, o, SetToSeq(S)) : o \in Offs6, S \in EmitRegs}))
=============================================================================
