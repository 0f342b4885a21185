----------------------------- MODULE RequestUrl -----------------------------
(* The URL of a request: where the query text must arrive, and all else that  *)
(* must be unaffected by it. Texts are byte sequences.                        *)
(* in: [type, q, server, params]; params: sequence of <<name, values>>.       *)
EXTENDS UrlText
\* path segments of the request type
Bytes(word) == CASE word = "autnum" -> <<97,117,116,110,117,109>> [] word = "domain" -> <<100,111,109,97,105,110>>
    [] word = "entity" -> <<101,110,116,105,116,121>> [] word = "help" -> <<104,101,108,112>> [] word = "ip" -> <<105,112>>
    [] word = "nameserver" -> <<110,97,109,101,115,101,114,118,101,114>> [] word = "domains" -> <<100,111,109,97,105,110,115>>
    [] word = "nameservers" -> <<110,97,109,101,115,101,114,118,101,114,115>> [] word = "entities" -> <<101,110,116,105,116,105,101,115>>
    [] word = "autnums" -> <<97,117,116,110,117,109,115>> [] word = "name" -> <<110,97,109,101>> [] word = "nsLdhName" -> <<110,115,76,100,104,78,97,109,101>>
    [] word = "nsIp" -> <<110,115,73,112>> [] word = "fn" -> <<102,110>> [] word = "handle" -> <<104,97,110,100,108,101>>
\* type -> <<path word, search parameter or "">>
Shape(t) == CASE t \in {"autnum", "domain", "entity", "nameserver", "ip"} -> <<t, "">>
    [] t = "help" -> <<"help", "">>
    [] t = "domain-search" -> <<"domains", "name">> [] t = "domain-search-by-nameserver" -> <<"domains", "nsLdhName">>
    [] t = "domain-search-by-nameserver-ip" -> <<"domains", "nsIp">> [] t = "nameserver-search" -> <<"nameservers", "name">>
    [] t = "nameserver-search-by-ip" -> <<"nameservers", "ip">> [] t = "entity-search" -> <<"entities", "fn">>
    [] t = "entity-search-by-handle" -> <<"entities", "handle">> [] t = "autnum-search" -> <<"autnums", "handle">>
PathSegs(t, q) ==
    IF t = "ip" THEN LET i == IndexOf(q, 47) IN IF i = 0 THEN <<q>> ELSE <<Before(q, i), After(q, i)>>
    ELSE IF t \in {"autnum", "domain", "entity", "nameserver"} THEN <<q>> ELSE <<>>
BaseSegs(p) == IF p.path = <<>> THEN <<<<>>>> ELSE IF HasSuffix(p.path, <<47>>) THEN SubSeq(p.segs, 1, Len(p.segs) - 1) ELSE p.segs

\* g overrides f
Override(f, g) == [n \in DOMAIN f \cup DOMAIN g |-> IF n \in DOMAIN g THEN g[n] ELSE f[n]]
\* (a parameter with an empty list of values removes those of the server)
Own(ps) == [n \in {ps[i][1] : i \in DOMAIN ps} |-> ps[CHOOSE i \in DOMAIN ps : ps[i][1] = n][2]]
NonEmpty(f) == [n \in {m \in DOMAIN f : f[m] # <<>>} |-> f[n]]
Search(t, q) == LET s == Shape(t)[2] IN IF s = "" THEN [n \in {} |-> <<>>] ELSE [n \in {Bytes(s)} |-> <<q>>]

Expect(in) ==
    LET s == ParseUrl(in.server) IN
    IF in.type = "url" THEN s
    ELSE [base |-> s.base,
          segs |-> BaseSegs(s) \o <<Bytes(Shape(in.type)[1])>> \o PathSegs(in.type, in.q),
          params |-> NonEmpty(Override(Override(s.params, Own(in.params)), Search(in.type, in.q))),
          frag |-> s.frag]
\* obs: [nil, pure, url]
UrlOk(in, obs) ==
    IF in.server = <<>> THEN obs.nil /\ obs.pure
    ELSE /\ ~ obs.nil /\ obs.pure /\ HasScheme(obs.url)
         /\ LET o == ParseUrl(obs.url) e == Expect(in) IN
            IF in.type = "url" THEN obs.url = in.server
            ELSE o.base = e.base /\ o.segs = e.segs /\ o.params = e.params /\ o.frag = e.frag
=============================================================================
