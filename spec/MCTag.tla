------------------------------- MODULE MCTag --------------------------------
(* Every handle up to a length over {A, a, B, '-', '~'} against every small   *)
(* registry. The scan for the last hyphen is the state machine.               *)
EXTENDS TagLookup, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS MaxLen, MaxTags
Alphabet == {65, 97, 66, DASH, 126}
Handles == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Tags == {<<65>>, <<97>>, <<66>>, <<65, 66>>, <<65, DASH, 66>>, <<126, 65>>, <<>>}
Url(i) == <<"http://u1.example/", "https://u2.example/r", "https://u3.example">>[i]
RegOf(S) == LET s == SetToSeq(S) IN [i \in DOMAIN s |-> [entries |-> <<s[i]>>, urls |-> <<Url(i)>>]]
Regs == {RegOf(S) : S \in UNION {kSubset(k, Tags) : k \in 1..MaxTags}} \cup
        {<<[entries |-> <<<<65>>, <<66>>>>, urls |-> <<Url(1)>>], [entries |-> <<<<66>>, <<97>>>>, urls |-> <<Url(2)>>]>>}
QSeq == SetToSeq(Handles)
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[in |-> [type |-> "tag", services |-> r, queries |-> QSeq],
    exp |-> [i \in DOMAIN QSeq |-> TagExpect(r, QSeq[i])]] : r \in Regs}))
VARIABLES q, pos, pc
vars == <<q, pos, pc>>
Init == q \in Handles /\ pos = Len(q) /\ pc = "scan"
Scan == /\ pc = "scan"
        /\ IF pos = 0 \/ q[pos] = DASH THEN pc' = "done" /\ UNCHANGED pos ELSE pos' = pos - 1 /\ UNCHANGED pc
        /\ UNCHANGED q
Next == Scan
Correct == pc = "done" => pos = LastIndexOf(q, DASH) /\ ~ HasByte(From(q, pos + 1), DASH)
=============================================================================
