------------------------------ MODULE MCClient ------------------------------
(* Failover as a state machine - one step per attempt, with the deadline      *)
(* passing at any attempt - checked against RdapClient's declarative outcome  *)
(* for every list of server behaviours up to MaxServers; and families of      *)
(* sessions written out for the real client.                                  *)
EXTENDS RdapClient, Json, IOUtils, SequencesExt, FiniteSetsExt
CONSTANTS MaxServers, Family

\* neighbours share a host, with another scheme, port or path
Srv(i) == CASE i = 1 -> "http://s.example/rdap/" [] i = 2 -> "https://s.example/rdap/" [] i = 3 -> "https://s.example/v2" [] i = 4 -> "https://s.example:8443/"
            [] i > 4 -> "https://s" \o ToString(i) \o ".example/rdap/"
R(api, t, q, server, boot, match, outs) ==
    [api |-> api, type |-> t, q |-> q, server |-> server, boot |-> boot, match |-> match,
     servers |-> IF server # "" THEN <<>> ELSE [i \in DOMAIN outs |-> Srv(i)], outs |-> outs, ctx |-> "none", timeout |-> "none"]
Sess(S) == {[reqs |-> <<r>>] : r \in S}
Lists(O, n) == UNION {[1..k -> O] : k \in 1..n}

\* C13: every list of behaviours
FailoverSet == {R("do", "domain", "x.example", "", "ok", "yes", l) : l \in Lists(Outcomes, 1) \cup Lists(Main, 2) \cup {<<a, b>> : a \in Outcomes, b \in {"dom", "nf", "500"}}}
    \cup {R("do", "ip", "10.1.2.3", "", "ok", "yes", l) :
            l \in [1..3 -> {"ip", "nf", "cut", "html", "d500", "empty", "rerr", "neterr", "nfcut"}]}
    \cup {R("do", "autnum", "5", "https://one.example/x", "ok", "yes", <<o>>) : o \in Outcomes}
    \cup {R("do", "domain", "x.example", "", "ok", "yes", <<a, b, c, d>>) : a, b, c \in {"500", "cut", "badclass"}, d \in {"dom", "nf", "204"}}

\* C12: every request type and query, with and without a server
Queries == {<<"domain", "x.example", "yes">>, <<"domain", "EXAMPLE.", "yes">>, <<"domain", "x.unknown", "none">>, <<"domain", "", "none">>,
            <<"autnum", "5", "yes">>, <<"autnum", "as10", "yes">>, <<"autnum", "AS77", "none">>, <<"autnum", "asx", "bad">>, <<"autnum", "-1", "bad">>,
            <<"entity", "H-TAG", "yes">>, <<"entity", "A-B-TAG", "yes">>, <<"entity", "H-tag", "none">>, <<"entity", "TAG", "none">>, <<"entity", "x.example", "none">>,
            <<"ip", "10.1.2.3", "yes">>, <<"ip", "10.128.0.0/9", "yes">>, <<"ip", "11.0.0.1", "none">>, <<"ip", "10.1.2", "bad">>, <<"ip", "10.0.0.0/7", "none">>,
            <<"ip", "2001:db8::1", "yes">>, <<"ip", "2001:db8::/33", "yes">>, <<"ip", "2001:db9::1", "none">>, <<"ip", "2001:db8:0:1:2:3:4:5", "yes">>, <<"ip", "2001:db8:1:2:3:4:10.1.2.3", "yes">>, <<"ip", "10.1.2.3:1", "bad">>, <<"ip", "zz::1", "bad">>, <<"ip", "x.example", "bad">>}
OtherTypes == {"help", "nameserver", "domain-search", "domain-search-by-nameserver", "domain-search-by-nameserver-ip", "nameserver-search",
               "nameserver-search-by-ip", "entity-search", "entity-search-by-handle", "autnum-search", "url"}
RouteSet == {R("do", x[1], x[2], "", b, x[3], l) : x \in Queries, b \in {"ok", "neterr", "status", "malformed"}, l \in {<<"help">>, <<"500", "ns">>}}
    \cup {R("do", x[1], x[2], sv, "ok", "yes", <<o>>) : x \in {y \in Queries : y[2] # ""}, o \in {"ent", "500", "nf"}, sv \in {"https://mine.example/rdap/", "https://mine.example"}}
    \cup {R("do", t, q, sv, "ok", "yes", <<"help">>) : t \in OtherTypes, q \in {"x.example", "10.1.2.3", "5"}, sv \in {"", "https://mine.example/rdap/"}}
\* several requests with one client
Pairs == {[reqs |-> <<a, b>>] : a, b \in {R("do", x[1], x[2], sv, bt, x[3], <<"neterr", "ent">>) :
             x \in {q \in Queries : q[2] \in {"x.example", "5", "H-TAG", "10.1.2.3", "2001:db8::1", "11.0.0.1"}} , sv \in {""}, bt \in {"ok", "status"}}}
          \cup {[reqs |-> <<a, b>>] : a, b \in {R("do", t, "x.example", sv, "ok", "yes", <<"dom">>) : t \in {"domain", "nameserver"}, sv \in {"", "https://mine.example/"}}}

\* C14: typed queries
TQ == {<<"domain", "domain", "x.example">>, <<"autnum", "autnum", "as5">>, <<"ip", "ip", "10.1.2.3">>, <<"ip", "ip", "2001:db8::1">>}
TypedSet == {R(x[1], x[2], x[3], "", b, m, l) : x \in TQ, b \in {"ok"}, m \in {"yes"}, l \in Lists(Outcomes, 1)}
    \cup {R(x[1], x[2], x[3], "", "ok", "yes", <<a, b>>) : x \in TQ, a \in {"500", "cut", "rerr", "ent", "array"}, b \in {"dom", "as", "ip", "rerr", "rerrnull", "rerr404", "nf", "srch", "e400"}}
    \cup {R(x[1], x[2], x[3], "", b, "yes", <<"dom">>) : x \in TQ, b \in {"neterr", "status", "malformed"}}
    \cup {R(x[1], x[1], x[2], "", "ok", x[3], <<"dom">>) : x \in {q \in Queries : q[1] \in {"domain", "autnum", "ip"} /\ q[3] # "yes"}}
    \cup {R("nil", "domain", "", "", "ok", "yes", <<>>)}
    \cup {R("do", "domain", "x.example", "", "ok", "yes", <<o>>) : o \in {"rerr", "ent", "help"}}

\* C15: deadlines
WithD(r, c, t) == [r EXCEPT !.ctx = c, !.timeout = t]
Far == {"none", "30s", "10m", "1h", "2h"}
DeadlineSet ==
    {WithD(R("do", "domain", "x.example", "", "ok", "yes", <<"timeouterr", "500", "dom">>), c, t) : c, t \in Far}
    \cup {WithD(R("do", "ip", "10.1.2.3", "https://mine.example/", "ok", "yes", <<o>>), c, t) : c, t \in Far, o \in {"ip", "timeouterr"}}
    \cup {WithD(R("do", "domain", "x.example", "", b, "yes", l), ct[1], ct[2]) :
            b \in {"ok"}, l \in {<<"hang", "dom">>, <<"500", "hang", "dom">>, <<"hangbody", "dom">>, <<"timeouterr", "cut", "hangbody">>, <<"hang">>},
            ct \in {<<"soon", "none">>, <<"none", "soon">>, <<"soon", "1h">>, <<"1h", "soon">>}}
    \cup {WithD(R("do", "domain", "x.example", "", "hang", "yes", <<"dom">>), ct[1], ct[2]) :
            ct \in {<<"soon", "none">>, <<"none", "soon">>, <<"soon", "1h">>, <<"1h", "soon">>}}
    \cup {WithD(R("do", "entity", "H-TAG", sv, "ok", "yes", <<o>>), "soon", "none") : sv \in {"https://mine.example/"}, o \in Hanging}
    \cup {WithD(R("do", "domain", "x.example", sv, "ok", "yes", <<"dom">>), "past", t) : sv \in {"", "https://mine.example/"}, t \in {"none", "1h"}}
    \cup {R(x[1], x[2], x[3], "", "ok", "yes", <<"timeouterr", "500", "dom">>) : x \in TQ}
\* after one request timed out, the client still works
After == {[reqs |-> <<WithD(R("do", "domain", "x.example", "", b, "yes", <<"hang">>), "soon", "none"),
                      R("do", "domain", "x.example", "", "ok", "yes", <<"dom">>)>>] : b \in {"ok", "hang"}}

Cases == CASE Family = "C13" -> Sess(FailoverSet)
           [] Family = "C12" -> Sess(RouteSet) \cup Pairs
           [] Family = "C14" -> Sess(TypedSet)
           [] Family = "C15" -> Sess(DeadlineSet) \cup After
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[in |-> c, exp |-> Expect(c)] : c \in Cases}))

-----------------------------------------------------------------------------
VARIABLES outs, i, result, sent, expired
vars == <<outs, i, result, sent, expired>>
Small == {"dom", "rerr", "nf", "cut", "500", "html", "hang"}
Init == outs \in UNION {[1..k -> Small] : k \in 1..MaxServers} /\ i = 1 /\ result = "" /\ sent = <<>> /\ expired = FALSE
Attempt == /\ result = "" /\ i <= Len(outs) /\ ~ expired
           /\ sent' = Append(sent, i)
           /\ LET o == outs[i] IN
              /\ expired' = (o = "hang")
              /\ result' = IF o = "hang" THEN "deadline" ELSE IF ObjOf(o) # "" THEN "object" ELSE IF o \in NotFound THEN "notfound" ELSE ""
           /\ i' = i + 1 /\ UNCHANGED outs
GiveUp == result = "" /\ i > Len(outs) /\ result' = "noservers" /\ UNCHANGED <<outs, i, sent, expired>>
Next == Attempt \/ GiveUp
Case1 == WithD(R("do", "domain", "x.example", "", "ok", "yes", outs), "soon", "none")
Exp == DoReq(Case1, {})
Correct == result # "" => /\ Len(sent) = Len(Exp.sent)
                          /\ result = IF Exp.err = "" THEN "object" ELSE Exp.err
InOrder == \A k \in DOMAIN sent : sent[k] = k
StopsAtDeadline == [][expired => sent' = sent]_vars
=============================================================================
