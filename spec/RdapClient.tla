----------------------------- MODULE RdapClient -----------------------------
(* rdap.Client.Do and the typed queries: choice of the bootstrap registry,    *)
(* failover over the answer's servers, deadlines, and error classification.   *)
(*                                                                            *)
(* A session in.reqs is a sequence of requests made with one client, whose    *)
(* bootstrap client has an empty cache at the start. Each request has         *)
(*   api      "do", "nil", "domain", "autnum", "ip"                           *)
(*   type, q  the request type's name and query text                          *)
(*   server   explicit server URL, or ""                                      *)
(*   boot     what the bootstrap service does: "ok" or a fault                *)
(*   match    whether the query matches the registry: "yes", "none", or "bad" *)
(*            (not a valid query for the registry)                            *)
(*   servers  URLs listed for the matching entry                              *)
(*   outs     what each server does                                           *)
(*   ctx, timeout   names of the context's deadline and the Timeout           *)
EXTENDS Integers, Sequences, TLC

\* What a server can do. obj: the type of a decodable 2xx body.
\* dNNN: status NNN with a domain object in the body; eNNN: with an RDAP error
GoodCodes == {201, 202, 203, 206, 207, 226, 299}
BadCodes == {300, 301, 302, 303, 304, 305, 307, 308, 400, 401, 402, 403, 405, 406, 408, 409, 410, 418, 421, 422, 425, 429, 451,
             500, 501, 502, 503, 504, 507, 511, 599}
D(S) == {"d" \o ToString(c) : c \in S}
E(S) == {"e" \o ToString(c) : c \in S}
\* white space around it, other content types, no content length, 100 kB and 5 MB
DomVariants == {"domws", "domhtmltype", "domnotype", "domrdap", "dombig", "domhuge"}
RErrs == {"rerr", "rerrnull", "rerrstr", "rerrbig", "rerrneg", "rerr0", "rerr200", "rerr404", "rerr429", "rerr500", "rerr1000", "rerr65535"}
ObjOf(o) == CASE o \in {"dom"} \cup D(GoodCodes) \cup DomVariants -> "Domain"
              [] o = "ip"   -> "IPNetwork"
              [] o = "as"   -> "Autnum"
              [] o = "ent"  -> "Entity"
              [] o = "ns"   -> "Nameserver"
              [] o = "help" -> "Help"
              [] o \in RErrs -> "Error"
              [] o = "srch" -> "DomainSearchResults"
              [] OTHER -> ""
NotFound == {"nf", "nfbody"}
\* recorded with an error: transport failures, incomplete and undecodable bodies
Broken == {"neterr", "timeouterr", "cut", "nfcut", "html", "array", "badclass", "partial", "ws", "bom", "trail", "twice"}
\* other statuses and empty bodies: recorded without an error
Useless == {"500", "empty", "204"} \cup D(BadCodes) \cup E(BadCodes)
\* never answers: ends when the request's context does
Hanging == {"hang", "hangbody"}
Outcomes == {"dom", "ip", "as", "ent", "ns", "help", "srch"} \cup DomVariants \cup D(GoodCodes) \cup RErrs \cup NotFound \cup Broken \cup Useless
\* one of each kind, for longer lists
Main == {"dom", "d201", "ip", "as", "ent", "ns", "help", "rerr", "srch", "nf", "nfbody", "neterr", "timeouterr", "cut", "nfcut", "html", "array", "badclass", "partial",
         "500", "d300", "d410", "d429", "d503", "e404", "empty", "204", "ws"} \cap Outcomes

PathOf(t, q) ==
    CASE t = "autnum" -> "autnum/" \o q [] t = "domain" -> "domain/" \o q [] t = "entity" -> "entity/" \o q
      [] t = "help" -> "help" [] t = "ip" -> "ip/" \o q [] t = "nameserver" -> "nameserver/" \o q
      [] t = "domain-search" -> "domains?name=" \o q
      [] t = "domain-search-by-nameserver" -> "domains?nsLdhName=" \o q
      [] t = "domain-search-by-nameserver-ip" -> "domains?nsIp=" \o q
      [] t = "nameserver-search" -> "nameservers?name=" \o q
      [] t = "nameserver-search-by-ip" -> "nameservers?ip=" \o q
      [] t = "entity-search" -> "entities?fn=" \o q
      [] t = "entity-search-by-handle" -> "entities?handle=" \o q
      [] t = "autnum-search" -> "autnums?handle=" \o q
      [] t = "url" -> ""
RequestURL(server, t, q) == IF t = "url" THEN server ELSE
    server \o (IF SubSeq(server, Len(server), Len(server)) = "/" THEN "" ELSE "/") \o PathOf(t, q)

HasColon(q) == \E i \in 1..Len(q) : SubSeq(q, i, i) = ":"
\* The one registry that a request type is bootstrapped from.
RegistryFor(t, q) == CASE t = "domain" -> "dns" [] t = "autnum" -> "asn" [] t = "entity" -> "tag"
                       [] t = "ip" -> (IF HasColon(q) THEN "ipv6" ELSE "ipv4") [] OTHER -> ""
FileOf(r) == CASE r = "tag" -> "object-tags.json" [] OTHER -> r \o ".json"

-----------------------------------------------------------------------------
\* Deadlines, as names ordered by time. "soon" expires during the request.
Rank(d) == CASE d = "past" -> 0 [] d = "soon" -> 1 [] d = "30s" -> 2 [] d = "10m" -> 3 [] d = "1h" -> 4 [] d = "2h" -> 5 [] OTHER -> 9
Sooner(a, b) == IF Rank(a) <= Rank(b) THEN a ELSE b
Deadline(r) == IF r.api \in {"domain", "autnum", "ip"} THEN "30s" ELSE Sooner(r.ctx, r.timeout)
Expires(r) == Deadline(r) \in {"soon", "past"}

\* The servers tried, in order, up to the first decisive outcome.
Decisive(o) == ObjOf(o) # "" \/ o \in NotFound \/ o \in Hanging
RECURSIVE Tried(_, _)
Tried(outs, i) == IF i > Len(outs) THEN Len(outs) ELSE IF Decisive(outs[i]) THEN i ELSE Tried(outs, i + 1)

NoObj == [type |-> "", from |-> ""]
Res(err, obj, attempts, sent, boot, answer) ==
    [err |-> err, obj |-> obj, attempts |-> attempts, sent |-> sent, boot |-> boot, answer |-> answer]
Fail(err, boot) == Res(err, NoObj, <<>>, <<>>, boot, <<>>)

\* Requests to the server list: the heart of Do.
Try(r, servers, outs, boot, answer) ==
    LET n == IF Deadline(r) = "past" THEN 0 ELSE Tried(outs, 1)
        urls == [i \in 1..n |-> RequestURL(servers[i], r.type, r.q)]
        last == outs[n]
        att == [i \in 1..n |-> [url |-> urls[i], err |-> outs[i] \in Broken \cup Hanging,
                                body |-> IF outs[i] \in {"neterr", "timeouterr", "cut", "nfcut"} \cup Hanging THEN "" ELSE outs[i] \o "@" \o servers[i]]]
    IN IF n = 0 THEN Res("deadline", NoObj, <<>>, <<>>, boot, answer)
       ELSE IF last \in Hanging THEN Res("deadline", NoObj, att, urls, boot, answer)
       ELSE IF ObjOf(last) # "" THEN Res("", [type |-> ObjOf(last), from |-> servers[n]], att, urls, boot, answer)
       ELSE IF last \in NotFound THEN Res("notfound", NoObj, att, urls, boot, answer)
       ELSE Res("noservers", NoObj, att, urls, boot, answer)

\* have: the registries that the bootstrap client holds already.
DoReq(r, have) ==
    LET reg == RegistryFor(r.type, r.q)
        boot == IF reg \in have \/ Deadline(r) = "past" THEN <<>> ELSE <<FileOf(reg)>>
    IN IF r.api = "nil" THEN Fail("input", <<>>)
       ELSE IF r.server # "" THEN Try(r, <<r.server>>, r.outs, <<>>, <<>>)
       ELSE IF reg = "" THEN Fail("notsupported", <<>>)
       ELSE IF reg \notin have /\ Deadline(r) = "past" THEN Fail("deadline", boot)
       ELSE IF reg \notin have /\ r.boot = "hang" THEN Fail("deadline", boot)
       ELSE IF reg \notin have /\ r.boot # "ok" THEN Fail("other", boot)
       ELSE IF r.match = "bad" THEN Fail("other", boot)
       ELSE IF r.match = "none" THEN Res("nomatch", NoObj, <<>>, <<>>, boot, <<>>)
       ELSE IF r.servers = <<>> THEN Res("nomatch", NoObj, <<>>, <<>>, boot, <<>>)
       ELSE Try(r, r.servers, r.outs, boot, r.servers)
Have(r, have) ==
    LET reg == RegistryFor(r.type, r.q) IN
    IF r.api # "nil" /\ r.server = "" /\ reg # "" /\ r.boot = "ok" /\ Deadline(r) # "past" THEN have \cup {reg} ELSE have

\* Typed queries: their own object type, or an error.
Wanted == [domain |-> "Domain", autnum |-> "Autnum", ip |-> "IPNetwork"]
Typed(r, d) ==
    IF r.api \notin DOMAIN Wanted THEN d
    ELSE LET e == IF d.err # "" THEN d.err
                  ELSE IF d.obj.type = Wanted[r.api] THEN ""
                  ELSE IF d.obj.type = "Error" THEN "server" ELSE "wrongtype"
         IN [d EXCEPT !.err = e, !.obj = IF e = "" THEN d.obj ELSE NoObj, !.attempts = <<>>, !.answer = <<>>]

\* every HTTP request carries the request's context and deadline
Carried(r, d) == [i \in 1..(Len(d.boot) + Len(d.sent)) |-> [dl |-> Deadline(r), ctx |-> r.api = "do"]]
One(r, have) == LET d == DoReq(r, have) IN Typed(r, d)
RECURSIVE Session(_, _, _)
Session(reqs, i, have) == IF i > Len(reqs) THEN <<>>
    ELSE LET d == One(reqs[i], have) IN
         <<[r |-> d, carried |-> Carried(reqs[i], d), same |-> TRUE, kept |-> TRUE]>> \o Session(reqs, i + 1, Have(reqs[i], have))
Expect(in) == Session(in.reqs, 1, {})
=============================================================================
