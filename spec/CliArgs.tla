------------------------------ MODULE CliArgs -------------------------------
(* The command line's grammar: options anywhere, in long (--name=value,       *)
(* --name value, --no-name) or short (-v, -vj, -tTYPE, -t TYPE) form, "--"    *)
(* ending them, everything else the query. Left open: "@file" arguments       *)
(* outside sandbox mode, values for flags, "--" behind combined short options,*)
(* and number formats other than decimal.                                     *)
EXTENDS Str
Flags == {"help", "version", "verbose", "insecure", "experimental", "text", "whois", "json", "raw"}
Lists == {"exp", "fetch"}
Valued == {"timeout", "type", "server", "cache-dir", "bs-url", "bs-ttl", "p12", "cert", "key"} \cup Lists
ShortNames == [h |-> "help", V |-> "version", v |-> "verbose", k |-> "insecure", e |-> "experimental", w |-> "whois", j |-> "json", r |-> "raw",
               T |-> "timeout", t |-> "type", f |-> "fetch", s |-> "server", P |-> "p12", C |-> "cert", K |-> "key"]
Starts(s, p) == Len(s) >= Len(p) /\ Take(s, Len(p)) = p
Failed == [bad |-> TRUE, els |-> <<>>, q |-> <<>>]
IsOption(a) == Len(a) > 1 /\ Starts(a, "-")
\* elements in order: <<option, value>>
RECURSIVE Scan(_, _, _, _)
WithNext(name, rest, els, q) ==
    IF rest = <<>> \/ IsOption(rest[1]) THEN Failed ELSE Scan(Tail(rest), Append(els, <<name, IF rest[1] = "-" THEN "" ELSE rest[1]>>), q, FALSE)
Scan(args, els, q, only) ==
    IF args = <<>> THEN [bad |-> FALSE, els |-> els, q |-> q]
    ELSE LET a == args[1] rest == Tail(args) IN
         IF only THEN Scan(rest, els, Append(q, a), TRUE)
         ELSE IF a = "--" THEN Scan(rest, els, q, TRUE)
         ELSE IF Starts(a, "--") THEN
            LET e == FindIn(a, {"="}, 3)
                n == IF e = 0 THEN Drop(a, 2) ELSE SubSeq(a, 3, e - 1) IN
            IF n \in Flags THEN Scan(rest, Append(els, <<n, "true">>), q, FALSE)
            ELSE IF n \in Valued THEN (IF e # 0 THEN Scan(rest, Append(els, <<n, Drop(a, e)>>), q, FALSE) ELSE WithNext(n, rest, els, q))
            ELSE IF Starts(n, "no-") /\ Drop(n, 3) \in Flags THEN Scan(rest, Append(els, <<Drop(n, 3), "false">>), q, FALSE)
            ELSE Failed
         ELSE IF IsOption(a) THEN
            LET c == At(a, 2) IN
            IF c \notin DOMAIN ShortNames THEN Failed
            ELSE LET n == ShortNames[c] IN
                 IF n \in Flags THEN Scan((IF Len(a) > 2 THEN <<"-" \o Drop(a, 2)>> ELSE <<>>) \o rest, Append(els, <<n, "true">>), q, FALSE)
                 ELSE IF Len(a) > 2 THEN Scan(rest, Append(els, <<n, Drop(a, 2)>>), q, FALSE) ELSE WithNext(n, rest, els, q)
         ELSE Scan(rest, els, Append(q, IF a = "-" THEN "" ELSE a), FALSE)
Given(els, n) == {i \in DOMAIN els : els[i][1] = n}
Value(els, n, d) == IF Given(els, n) = {} THEN d ELSE els[CHOOSE i \in Given(els, n) : TRUE][2]
IsOn(els, n) == Value(els, n, "false") = "true"
All(els, n) == {els[i][2] : i \in Given(els, n)}
Decimal(v, max) == AllDigits(v) /\ NumStrLE(NoLead(v), max)
BadValues(els) ==
    \/ \E n \in Flags \cup Valued : n \notin Lists /\ Cardinality(Given(els, n)) > 1
    \/ ~Decimal(Value(els, "timeout", "30"), "65535")
    \/ ~Decimal(Value(els, "bs-ttl", "3600"), "4294967295")
\* kind: "err", "help", "version" or "run"
Parsed(args) == LET s == Scan(args, <<>>, <<>>, FALSE) IN
    [kind |-> IF s.bad THEN "err" ELSE IF Given(s.els, "help") # {} THEN "help" ELSE IF BadValues(s.els) THEN "err"
              ELSE IF IsOn(s.els, "version") THEN "version" ELSE "run",
     els |-> s.els, q |-> s.q]
=============================================================================
