------------------------------- MODULE MCAuto -------------------------------
(* Detection as a decision sequence, one rule per step, over every text up to *)
(* MaxLen over a small alphabet and over structured texts; each is written    *)
(* out for the real code.                                                     *)
EXTENDS AutoRequest, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS MaxLen
Alphabet == {49, 48, 65, 115, 46, 58, 47}   \* 1 0 A s . : /
Plain == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Texts(S) == S
\* dotted quads with corner octets, with and without a prefix length
O == {<<48>>, <<50, 53, 53>>, <<50, 53, 54>>, <<48, 49>>, <<>>}
Quads == {a \o <<46>> \o b \o <<46, 49, 46>> \o c \o m : a \in O, b \in {<<48>>, <<49>>, <<57, 57, 57>>}, c \in O,
            m \in {<<>>, <<47, 48>>, <<47, 51, 50>>, <<47, 51, 51>>, <<47, 48, 56>>, <<47>>, <<47, 49, 47, 49>>}}
H == {<<>>, <<48>>, <<102, 102, 102, 102>>, <<49, 50, 51, 52, 53>>, <<103>>}
Sixes == {a \o <<58>> \o b \o <<58>> \o c \o m : a, b, c \in H, m \in {<<>>, <<58>>, <<58, 58, 49>>, <<58, 49, 46, 50, 46, 51, 46, 52>>, <<47, 54, 52>>, <<47, 49, 50, 57>>}}
Eight == {Flatten([i \in 1..k |-> <<97 + i, 58>>]) \o t : k \in 5..8, t \in {<<>>, <<49>>, <<58>>, <<58, 49>>, <<49, 46, 50, 46, 51, 46, 52>>, <<48, 47, 49, 50, 56>>}}
Nums == {p \o n \o s : p \in {<<>>, <<65, 83>>, <<97, 115>>, <<65, 115>>, <<83>>, <<97, 115, 97, 115>>, <<43>>, <<45>>},
         n \in {<<48>>, <<48, 48, 55>>, <<52, 50, 57, 52, 57, 54, 55, 50, 57, 53>>, <<52, 50, 57, 52, 57, 54, 55, 50, 57, 54>>, <<52, 51, 48, 48, 48, 48, 48, 48, 48, 48, 48>>},
         s \in {<<>>, <<46>>, <<46, 49>>, <<32>>, <<120>>}}
Urls == {s \o h \o p : s \in {Http, Https, Upper(Http), Upper(Https)}, h \in {<<101, 120, 46, 99>>, <<49, 46, 50, 46, 51, 46, 52>>},
         p \in {<<>>, <<47>>, <<47, 100>>, <<47, 47>>, <<47, 100, 47, 101, 63, 97, 61, 98>>, <<63, 97>>, <<47, 63, 97>>, <<47, 100, 35, 102>>}}
Inputs == Plain \cup Quads \cup Sixes \cup Eight \cup Nums \cup Urls
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[in |-> [t |-> t]] : t \in Inputs}))

VARIABLES t, rule, verdict
vars == <<t, rule, verdict>>
Rules == <<"url", "urldomain", "ip", "cidr", "autnum", "domain", "entity">>
Applies(r) == CASE r = "url" -> IsUrl(t) /\ UrlPath(t) \notin {<<>>, <<47>>}
                [] r = "urldomain" -> IsUrl(t)
                [] r = "ip" -> IP(t) # Bad
                [] r = "cidr" -> CIDR(t).b # Bad
                [] r = "autnum" -> IsU32(AsDigits(t))
                [] r = "domain" -> HasByte(t, 46)
                [] r = "entity" -> TRUE
Init == t \in Inputs /\ rule = 1 /\ verdict = ""
Next == /\ verdict = ""
        /\ IF Applies(Rules[rule]) THEN verdict' = Rules[rule] /\ UNCHANGED rule ELSE rule' = rule + 1 /\ UNCHANGED verdict
        /\ UNCHANGED t
Correct == verdict # "" => verdict = Class(t)
\* the syntaxes do not overlap, so their order among themselves is immaterial
Disjoint == ~ (IP(t) # Bad /\ CIDR(t).b # Bad) /\ ~ (IP(t) # Bad /\ IsU32(AsDigits(t))) /\ ~ (IsUrl(t) /\ (IP(t) # Bad \/ CIDR(t).b # Bad))
=============================================================================
