----------------------------- MODULE RequestUse -----------------------------
(* Requests as objects in use: made, derived from one another (WithServer),   *)
(* and run any number of times by one client, their server URLs and the       *)
(* registry's shared. Running a request changes no request and no response    *)
(* that exists already; what it sends and returns depends only on the         *)
(* request's own fields, the world, and the registries already held.          *)
(* Every session up to a bound is written out.                                *)
EXTENDS RdapClient, Json, SequencesExt
CONSTANTS Depth, More

S(i) == "https://s" \o ToString(i) \o ".example/rdap/"
Listed == <<S(1), S(2), "https://s3.example">>
Mine == "https://mine.example/rdap"
Q(t, q, server, timeout, params) ==
    [api |-> "do", type |-> t, q |-> q, server |-> server, boot |-> "ok", match |-> "yes", ctx |-> "none", timeout |-> timeout, params |-> params]
P == <<<<"lang", "en">>>>
Shapes == {Q("domain", "x.example", "", "none", <<>>), Q("domain", "x.example", "", "1h", P), Q("ip", "10.1.2.3", "", "30s", <<>>),
           Q("entity", "H-TAG", Mine, "none", <<>>), Q("nameserver-search", "ns1", Mine, "none", P \o <<<<"page", "2">>>>), Q("help", "", Mine, "10m", P),
           Q("url", "", "https://mine.example/rdap/domain/x?y=1", "none", <<>>)}
Outs == {<<"dom", "500", "500">>, <<"500", "nf", "dom">>} \cup (IF More THEN {<<"neterr", "cut", "rerr">>, <<"html", "204", "500">>} ELSE {})
\* the request r run as step same (0: a new object), with servers behaving as o
Run(r, same, with, o) ==
    LET boot == r.server = "" IN
    [x \in DOMAIN r \cup {"same", "with", "servers", "outs"} |->
        IF x = "same" THEN same ELSE IF x = "with" THEN with
        ELSE IF x = "servers" THEN (IF boot THEN Listed ELSE <<>>)
        ELSE IF x = "outs" THEN (IF boot THEN o ELSE <<o[1]>>) ELSE r[x]]
VARIABLES heap, hist, have, results
vars == <<heap, hist, have, results>>
Init == heap = <<>> /\ hist = <<>> /\ have = {} /\ results = <<>>
Do(r, same, with, o) ==
    /\ hist' = Append(hist, Run(r, same, with, o))
    /\ heap' = Append(heap, r)      \* (for same > 0 without With: the same object, under one more name)
    /\ results' = Append(results, One(Run(r, same, with, o), have))
    /\ have' = Have(Run(r, same, with, o), have)
New == \E r \in Shapes, o \in Outs : Do(r, 0, FALSE, o)
Again == \E j \in DOMAIN heap, o \in Outs : Do(heap[j], j, FALSE, o)
Derived == \E j \in DOMAIN heap, sv \in {Mine, "https://other.example/"}, o \in Outs :
              heap[j].type # "url" /\ Do([heap[j] EXCEPT !.server = sv], j, TRUE, o)
Next == Len(hist) < Depth /\ (New \/ Again \/ Derived)
Emit == Len(hist) = Depth => PrintT(<<"S", ToJson([reqs |-> hist])>>)
\* Running requests changes none of those there are, nor a response.
Unmodified == [][\A i \in DOMAIN heap : heap'[i] = heap[i] /\ results'[i] = results[i]]_vars
\* The same request in the same circumstances: the same requests and result.
Repeatable == \A i, j \in DOMAIN hist :
    (heap[i] = heap[j] /\ hist[i].outs = hist[j].outs) =>
        results[i].sent = results[j].sent /\ results[i].err = results[j].err /\ results[i].obj = results[j].obj
=============================================================================
