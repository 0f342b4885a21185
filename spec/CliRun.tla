------------------------------- MODULE CliRun -------------------------------
(* A run of the command line client, from its arguments, the files it finds   *)
(* and the servers it meets to its exit code, output, requests and files.     *)
(*                                                                            *)
(* run: [args, sandbox, now, xdg, servers, hosts, body, pre]; hosts is a      *)
(* sequence of [host, out, cert]: what is found at a host name (out: an       *)
(* outcome of RdapClient, "body", "slow", "redir:URL", or a bootstrap         *)
(* service: "boot", "boot500", "bootbad", "bootcut", "boothang",             *)
(* "bootslow"), and its     *)
(* certificate: "good" or one that does not verify. servers: what registries  *)
(* served during the run list for every query they cover.                     *)
(* Files: fs [files, blocked]: cached registry files and plain files lying    *)
(* in the way of directories.                                                 *)
EXTENDS CliArgs, TLC
Url == INSTANCE RequestUrl
Auto == INSTANCE AutoRequest
Lib == INSTANCE RdapClient
Prt == INSTANCE RdapPrint

Bytes(s) == [i \in 1..Len(s) |-> Ord(At(s, i)) - 1]
Ends(s, p) == Len(s) >= Len(p) /\ Drop(s, Len(s) - Len(p)) = p
Under(p, dir) == p = dir \/ Starts(p, dir \o "/")

-----------------------------------------------------------------------------
\* ---- what the options mean
Experiments == {"test_rdap_net", "object_tag", "sandbox"}
Sandboxed(run, els) == run.sandbox \/ "sandbox" \in All(els, "exp")
HasFileArg(run) == \E i \in DOMAIN run.args : Starts(run.args[i], "@")

\* (the unusable URLs that are used here)
BadUrl(u) == u \in {"%zz", "http://[::1", "http://s1.example/%zz", "127.0.0.1:80", ":x", "http://s1.example:port/", "1.2.3.4:443/x"}
Unreachable(u) == u \in {"foo bar", "mailto:x", "localhost:80", "ftp://s1.example/x", "http://", "x", ""}
HasSchemeS(u) == FindIn(u, {":"}, 1) # 0 /\ SubSeq(u, FindIn(u, {":"}, 1), FindIn(u, {":"}, 1) + 2) = "://"
ServerUrl(s) == IF HasSchemeS(s) THEN s ELSE IF Starts(s, "//") THEN "http:" \o s ELSE "http://" \o s

\* type option -> request type
TypeOf == [t \in {"help", "domain", "dns", "autnum", "as", "asn", "ip", "nameserver", "ns", "entity", "url", "entity-search", "entity-search-by-handle",
                  "domain-search", "domain-search-by-nameserver", "domain-search-by-nameserver-ip", "nameserver-search", "nameserver-search-by-ip", "autnum-search"} |->
    CASE t = "dns" -> "domain" [] t \in {"as", "asn"} -> "autnum" [] t = "ns" -> "nameserver" [] OTHER -> t]
NoReq == [bad |-> TRUE, type |-> "", q |-> <<>>, server |-> "", how |-> ""]
\* how: how the query text is to be compared
Req(type, q, server, how) == [bad |-> FALSE, type |-> type, q |-> q, server |-> server, how |-> how]
AutoReq(t, text) == LET c == Auto!Class(t) IN
    CASE c = "url" -> Req("url", <<>>, text, "same") [] c = "urldomain" -> Req("domain", Auto!Host(t), "", "same")
      [] c = "ip" -> Req("ip", t, "", "ip") [] c = "cidr" -> Req("ip", t, "", "cidr") [] c = "autnum" -> Req("autnum", Auto!AsDigits(t), "", "number")
      [] c = "domain" -> Req("domain", t, "", "same") [] c = "entity" -> Req("entity", t, "", "same")
Request(els, qs) ==
    LET t == Value(els, "type", "")
        text == IF qs = <<>> THEN "" ELSE qs[1]
        q == Bytes(text) IN
    IF qs = <<>> /\ t # "help" THEN NoReq
    ELSE IF t = "" THEN AutoReq(q, text)
    ELSE IF t \notin DOMAIN TypeOf THEN NoReq
    ELSE LET r == TypeOf[t] IN
         CASE r = "help" -> Req("help", <<>>, "", "same")
           [] r = "autnum" -> (IF Auto!IsU32(Auto!AsDigits(q)) THEN Req("autnum", Auto!AsDigits(q), "", "number") ELSE NoReq)
           [] r = "ip" -> (IF Auto!IP(q) # Auto!Bad THEN Req("ip", q, "", "ip") ELSE NoReq)
           [] r = "url" -> (IF BadUrl(text) THEN NoReq ELSE Req("url", <<>>, text, "same"))
           [] OTHER -> Req(r, q, "", "same")
DefaultDir(run) == IF Starts(run.xdg, "{D}") THEN run.xdg \o "/openrdap" ELSE "{D}/home/.cache/openrdap"
RECURSIVE Elements(_)
Elements(p) == IF p = "" THEN <<>> ELSE LET i == FindIn(p, {"/"}, 1) IN IF i = 0 THEN <<p>> ELSE <<Take(p, i - 1)>> \o Elements(Drop(p, i))
RECURSIVE Walk(_, _)
Walk(done, es) == IF es = <<>> THEN done
    ELSE Walk(IF es[1] \in {"", "."} THEN done ELSE IF es[1] = ".." THEN SubSeq(done, 1, Len(done) - 1) ELSE Append(done, es[1]), Tail(es))
RECURSIVE Slashed(_)
Slashed(es) == IF es = <<>> THEN "" ELSE es[1] \o (IF Len(es) > 1 THEN "/" ELSE "") \o Slashed(Tail(es))
Absolute(p) == Slashed(Walk(<<>>, Elements(IF Starts(p, "{") THEN p ELSE "{D}/cwd/" \o p)))
\* "" : kept in memory only
CacheDir(run, els) == LET d == Value(els, "cache-dir", "default") IN
    IF d = "" THEN "" ELSE IF d = "default" \/ Sandboxed(run, els) THEN DefaultDir(run) ELSE Absolute(d)
Obstructed(fs, dir) == dir # "" /\ \E b \in fs.blocked \cup {"{P}/garbage"} : Under(dir, b)

Iana == "https://data.iana.org/rdap/"
Service(els) == LET u == Value(els, "bs-url", "default") IN
    IF u # "default" THEN u ELSE IF IsOn(els, "experimental") \/ "test_rdap_net" \in All(els, "exp") THEN "https://test.rdap.net/rdap" ELSE Iana

\* client certificates: [bad, name]
Cert(bad, name) == [bad |-> bad, name |-> name]
Builtin == [f \in {"DigiCert_RDAP_Pilot_Client_Certificate.p12", "DigiCert_RDAP_Pilot_Client_Certificate_Expired.p12", "DigiCert_RDAP_Pilot_Client_Certificate_Revoked.p12"} |->
    "DigiCert RDAP Pilot Client Certificate" \o (IF Ends(f, "_Expired.p12") THEN " Expired" ELSE IF Ends(f, "_Revoked.p12") THEN " Revoked" ELSE "")]
ClientCert(run, els) ==
    LET c == Value(els, "cert", "")
        k == Value(els, "key", "")
        p == Value(els, "p12", "")
        i == FindIn(p, {":"}, 1)
        file == IF i = 0 THEN p ELSE Take(p, i - 1)
        pass == IF i = 0 THEN "" ELSE Drop(p, i)
    IN IF c # "" \/ k # "" THEN
          (IF p # "" \/ c = "" \/ k = "" THEN Cert(TRUE, "")
           ELSE IF Sandboxed(run, els) THEN Cert(FALSE, "")
           ELSE IF c = "{P}/client1.pem" /\ k = "{P}/client1.key" THEN Cert(FALSE, "client1")
           ELSE IF c = "{P}/client2.pem" /\ k = "{P}/client2.key" THEN Cert(FALSE, "client2") ELSE Cert(TRUE, ""))
       ELSE IF p = "" THEN Cert(FALSE, "")
       ELSE IF Sandboxed(run, els) THEN (IF file \in DOMAIN Builtin /\ pass = "rdap" THEN Cert(FALSE, Builtin[file]) ELSE Cert(TRUE, ""))
       ELSE IF (file = "{P}/secret.p12" /\ pass = "s:cret") \/ (file = "{P}/nopass.p12" /\ pass = "") THEN Cert(FALSE, "p12-client") ELSE Cert(TRUE, "")

\* options or query in error: nothing is sent
Misused(run, fs, els, qs) ==
    LET r == Request(els, qs) s == Value(els, "server", "") IN
    \/ All(els, "exp") \ Experiments # {}
    \/ Sandboxed(run, els) /\ HasFileArg(run)
    \/ r.bad
    \/ s # "" /\ (r.type = "url" \/ BadUrl(s))
    \/ Obstructed(fs, CacheDir(run, els))
    \/ Value(els, "bs-url", "default") # "default" /\ BadUrl(Value(els, "bs-url", "default"))
    \/ ClientCert(run, els).bad

-----------------------------------------------------------------------------
\* ---- the network
HostOf(u) == LET b == Drop(u, FindIn(u, {":"}, 1) + 2) e == FindIn(b, {"/", "?", "#", ":"}, 1) IN IF e = 0 THEN b ELSE Take(b, e - 1)
At_(run, u) == {i \in DOMAIN run.hosts : run.hosts[i].host = HostOf(u)}
\* what a GET meets: [reqs: the URLs that arrive, out]
RECURSIVE Get(_, _, _, _, _)
Get(run, insecure, first, u, n) ==
    LET S == IF Unreachable(u) \/ ~HasSchemeS(u) THEN {} ELSE At_(run, u) IN
    IF S = {} THEN [reqs |-> <<>>, out |-> "neterr"]
    ELSE LET h == run.hosts[CHOOSE i \in S : TRUE] IN
         IF h.out = "neterr" \/ (Starts(u, "https:") /\ h.cert # "good" /\ ~insecure) THEN [reqs |-> <<>>, out |-> "neterr"]
         ELSE IF Starts(h.out, "redir:") THEN
             (IF n = 0 THEN [reqs |-> <<first>>, out |-> "neterr"]
              ELSE LET r == Get(run, insecure, [url |-> Drop(h.out, 6), kind |-> "exact"], Drop(h.out, 6), n - 1) IN [reqs |-> <<first>> \o r.reqs, out |-> r.out])
         ELSE [reqs |-> <<first>>, out |-> h.out]
\* time: what answers take, and the whole run's limit, in tenths of seconds
Limit(els) == 10 * SmallNat(Value(els, "timeout", "30"))
Takes(out) == CASE out \in {"hang", "boothang"} -> 999999 [] out = "slow" -> 25 [] out \in {"slow500", "bootslow"} -> 12 [] OTHER -> 0
Good(out) == out \in {"body", "slow"} \/ Lib!ObjOf(out) # ""

\* try servers in turn: [reqs, out, t]; out "timeout" when time is up
RECURSIVE TryAll(_, _, _, _, _, _)
TryAll(run, els, r, servers, reqs, t) ==
    IF servers = <<>> THEN [reqs |-> reqs, out |-> "none", t |-> t]
    ELSE LET s == servers[1]
             u == IF r.type = "url" THEN s ELSE ServerUrl(s)
             g == Get(run, IsOn(els, "insecure"), [url |-> u, kind |-> "rdap"], u, 9)
             now == t + Takes(g.out)
         IN IF t >= Limit(els) THEN [reqs |-> reqs, out |-> "timeout", t |-> t]
            ELSE IF now > Limit(els) THEN [reqs |-> reqs \o g.reqs, out |-> "timeout", t |-> Limit(els)]
            ELSE IF Good(g.out) \/ g.out \in Lib!NotFound THEN [reqs |-> reqs \o g.reqs, out |-> g.out, t |-> now]
            ELSE TryAll(run, els, r, Tail(servers), reqs \o g.reqs, now)

\* ---- the bootstrap step: [ok, servers, reqs, fs, t]
RegOf(r) == CASE r.type = "domain" -> "dns" [] r.type = "autnum" -> "asn" [] r.type = "entity" -> "tag"
              [] r.type = "ip" -> (IF Auto!HasByte(r.q, 58) THEN "ipv6" ELSE "ipv4") [] OTHER -> ""
FileOf(reg) == IF reg = "tag" THEN "object-tags.json" ELSE reg \o ".json"
FetchUrl(svc, reg) == svc \o (IF Ends(svc, "/") THEN "" ELSE "/") \o FileOf(reg)
Covered(r) == CASE r.type = "domain" -> Auto!HasSuffix(r.q, Bytes(".example")) \/ r.q = Bytes("example")
                [] r.type = "entity" -> Auto!HasSuffix(r.q, Bytes("-TEST")) [] OTHER -> TRUE
Ttl(els) == IF Len(Value(els, "bs-ttl", "3600")) > 9 THEN 999999999 ELSE SmallNat(Value(els, "bs-ttl", "3600"))
Min2(a, b) == IF a < b THEN a ELSE b
Boot(run, fs, els, r) ==
    LET dir == CacheDir(run, els)
        svc == Service(els)
        reg == RegOf(r)
        old == {f \in fs.files : f.dir = dir /\ f.svc = svc /\ f.reg = reg}
        hit == {f \in old : dir # "" /\ run.now - f.at < Ttl(els)}
        u == FetchUrl(svc, reg)
        g == Get(run, IsOn(els, "insecure"), [url |-> u, kind |-> "exact"], u, 9)
        new == [dir |-> dir, svc |-> svc, reg |-> reg, at |-> run.now, servers |-> run.servers]
        t == Min2(Takes(g.out), Limit(els))
        say(ok, sv, rq, f) == [ok |-> ok, servers |-> sv, reqs |-> rq, fs |-> f, t |-> IF rq = <<>> THEN 0 ELSE t]
    IN IF hit # {} THEN say(TRUE, (CHOOSE f \in hit : TRUE).servers, <<>>, fs)
       ELSE IF Limit(els) = 0 THEN say(FALSE, <<>>, <<>>, fs)
       ELSE IF g.out \notin {"boot", "bootslow"} \/ Takes(g.out) > Limit(els) THEN say(FALSE, <<>>, g.reqs, fs)
       ELSE say(TRUE, run.servers, g.reqs, IF dir = "" THEN fs ELSE [fs EXCEPT !.files = (@ \ old) \cup {new}])

-----------------------------------------------------------------------------
\* ---- a run: [exit, kind, reqs, fs, out, r, cert, t]
\* kind: "usage", "version", "misuse" (nothing may be sent), "failed" or "printed"
ResT(exit, kind, reqs, fs, out, r, cert, t) == [exit |-> exit, kind |-> kind, reqs |-> reqs, fs |-> fs, out |-> out, r |-> r, cert |-> cert, t |-> t]
Res(exit, kind, reqs, fs, out, r, cert) == ResT(exit, kind, reqs, fs, out, r, cert, 0)
Dirs(fs, op) == CASE op[1] = "file" -> [fs EXCEPT !.blocked = @ \cup {op[2]}]
                  [] op[1] = "rmdir" -> [files |-> {f \in fs.files : ~Under(f.dir, op[2])}, blocked |-> {b \in fs.blocked : ~Under(b, op[2])}]
                  [] OTHER -> fs
RECURSIVE Before(_, _)
Before(fs, pre) == IF pre = <<>> THEN fs ELSE Before(Dirs(fs, pre[1]), Tail(pre))
Outcome(run, fs0) ==
    LET fs == Before(fs0, run.pre)
        p == Parsed(run.args)
        els == p.els
        r == Request(els, p.q)
        cert == ClientCert(run, els).name
        server == IF r.server # "" THEN r.server ELSE Value(els, "server", "")
    IN IF run.sandbox /\ HasFileArg(run) THEN Res(1, "misuse", <<>>, fs, "", NoReq, "")
       ELSE IF p.kind = "err" THEN Res(1, "misuse", <<>>, fs, "", NoReq, "")
       ELSE IF p.kind = "help" THEN Res(1, "usage", <<>>, fs, "", NoReq, "")
       ELSE IF p.kind = "version" THEN Res(0, "version", <<>>, fs, "", NoReq, "")
       ELSE IF Misused(run, fs, els, p.q) THEN Res(1, "misuse", <<>>, fs, "", NoReq, "")
       ELSE IF server = "" /\ RegOf(r) = "" THEN Res(1, "misuse", <<>>, fs, "", r, cert)
       ELSE LET b == IF server # "" \/ r.type = "url" THEN [ok |-> TRUE, servers |-> <<server>>, reqs |-> <<>>, fs |-> fs, t |-> 0] ELSE Boot(run, fs, els, r)
                t == IF ~b.ok \/ (server = "" /\ r.type # "url" /\ ~Covered(r)) THEN [reqs |-> <<>>, out |-> "none", t |-> b.t] ELSE TryAll(run, els, r, b.servers, <<>>, b.t)
            IN IF Good(t.out) THEN ResT(0, "printed", b.reqs \o t.reqs, b.fs, t.out, r, cert, t.t)
               ELSE ResT(1, "failed", b.reqs \o t.reqs, b.fs, t.out, r, cert, t.t)

-----------------------------------------------------------------------------
\* ---- the requests as observed: each [url, method, ua, accept, cert]
SameUrlParts(a, b) == a.base = b.base /\ a.segs = b.segs /\ a.params = b.params
LastSeg(u) == LET s == Url!ParseUrl(u).segs IN s[Len(s)]
IpSeg(u) == LET s == Url!ParseUrl(u).segs IN IF Len(s) > 1 /\ s[Len(s) - 1] # Bytes("ip") THEN s[Len(s) - 1] \o <<47>> \o s[Len(s)] ELSE s[Len(s)]
QueryOk(r, u) == CASE r.how = "number" -> Auto!AllDigits(LastSeg(u)) /\ Auto!StripZeros(LastSeg(u)) = Auto!StripZeros(r.q)
                   [] r.how = "ip" -> Auto!IP(LastSeg(u)) # Auto!Bad /\ Auto!Mapped(Auto!IP(LastSeg(u))) = Auto!Mapped(Auto!IP(r.q))
                   [] r.how = "cidr" -> Auto!CIDR(IpSeg(u)).b # Auto!Bad /\ Auto!CIDR(IpSeg(u)) = Auto!CIDR(r.q)
                   [] OTHER -> TRUE
\* the query text as it appears, where it may be rewritten
Shown(r, u) == CASE r.how \in {"number", "ip"} -> LastSeg(u) [] r.how = "cidr" -> IpSeg(u) [] OTHER -> r.q
NoFrag(u) == LET h == FindIn(u, {"#"}, 1) IN IF h = 0 THEN u ELSE Take(u, h - 1)
RootPath(u) == IF HasSchemeS(u) /\ FindIn(Drop(u, FindIn(u, {":"}, 1) + 2), {"/"}, 1) = 0 THEN u \o "/" ELSE u
UrlFits(x, r, u) ==
    IF x.kind = "exact" \/ r.type = "url" THEN SameUrlParts(Url!ParseUrl(u), Url!ParseUrl(Bytes(RootPath(NoFrag(x.url)))))
    ELSE QueryOk(r, u) /\ SameUrlParts(Url!ParseUrl(u), Url!Expect([type |-> r.type, q |-> Shown(r, u), server |-> Bytes(x.url), params |-> <<>>]))
Mentions(a) == \E i \in 1..Len(a) : Starts(Drop(a, i - 1), "application/rdap+json")
IsRdap(x) == x.kind = "rdap"
ReqsFit(res, reqs) ==
    /\ Len(reqs) = Len(res.reqs)
    /\ \A i \in DOMAIN reqs : /\ UrlFits(res.reqs[i], res.r, reqs[i].url) /\ reqs[i].method = "GET"
                              /\ IsRdap(res.reqs[i]) => Starts(reqs[i].ua, "OpenRDAP ") /\ Mentions(reqs[i].accept)
\* a client certificate is shown exactly when one was given
CertsFit(res, reqs) == \A i \in DOMAIN reqs : reqs[i].cert = IF Starts(res.reqs[i].url, "https:") THEN res.cert ELSE ""

\* ---- standard output
RECURSIVE Glue(_)
Glue(ls) == IF ls = <<>> THEN "" ELSE ls[1] \o "\n" \o Glue(Tail(ls))
RECURSIVE CleanLine(_)
CleanLine(s) == IF s = "" THEN "" ELSE LET c == At(s, 1) IN
    (IF c \in {"\n", "\r"} THEN " " ELSE IF c = Chars[1] THEN "" ELSE c) \o CleanLine(Drop(s, 1))
RECURSIVE WhoisText(_)
WhoisText(w) == IF w = <<>> THEN "" ELSE Glue([i \in DOMAIN w[1][2] |-> w[1][1] \o ": " \o CleanLine(w[1][2][i])]) \o WhoisText(Tail(w))
TextForm(obj) == Glue(Prt!Printed([n |-> FALSE, r |-> FALSE, b |-> FALSE, l |-> TRUE, char |-> "", size |-> 0], obj))
\* a JSON text without its insignificant white space
RECURSIVE Squeeze(_, _, _)
Squeeze(s, i, inside) ==
    IF i > Len(s) THEN ""
    ELSE LET c == At(s, i) IN
         IF inside THEN (IF c = "\\" THEN c \o At(s, i + 1) \o Squeeze(s, i + 2, TRUE) ELSE c \o Squeeze(s, i + 1, c # "\""))
         ELSE (IF c \in {" ", "\t", "\n", "\r"} THEN "" ELSE c) \o Squeeze(s, i + 1, c = "\"")
Formats(els) == LET F == {f \in {"text", "raw", "json", "whois"} : IsOn(els, f)} IN IF F = {} THEN {"text"} ELSE F
StdoutFits(els, obs) ==
    LET F == Formats(els)
        a == (IF "text" \in F THEN TextForm(obs.obj) ELSE "") \o (IF "raw" \in F THEN obs.bodytext ELSE "")
        z == IF "whois" \in F THEN WhoisText(Prt!Whois(obs.obj)) ELSE ""
        n == Len(obs.text) IN
    \/ "whois" \in F /\ Prt!WhoisOpen(obs.obj)
    \/ /\ n >= Len(a) + Len(z) /\ Take(obs.text, Len(a)) = a /\ Drop(obs.text, n - Len(z)) = z
       /\ LET mid == SubSeq(obs.text, Len(a) + 1, n - Len(z)) IN
          IF "json" \in F THEN Squeeze(mid, 1, FALSE) = Squeeze(obs.bodytext, 1, FALSE) ELSE mid = ""
\* the same on bytes, for raw and JSON output
Blank == {32, 9, 10, 13}
RECURSIVE Next_(_, _)
Next_(t, i) == IF i <= Len(t) /\ t[i] \in Blank THEN Next_(t, i + 1) ELSE i
\* the same JSON text, apart from insignificant white space
RECURSIVE SameText(_, _, _, _, _)
SameText(a, i0, b, j0, inside) ==
    LET i == IF inside THEN i0 ELSE Next_(a, i0)
        j == IF inside THEN j0 ELSE Next_(b, j0) IN
    IF i > Len(a) \/ j > Len(b) THEN i > Len(a) /\ j > Len(b)
    ELSE IF a[i] # b[j] THEN FALSE
    ELSE IF inside /\ a[i] = 92 THEN i < Len(a) /\ j < Len(b) /\ a[i + 1] = b[j + 1] /\ SameText(a, i + 2, b, j + 2, TRUE)
    ELSE SameText(a, i + 1, b, j + 1, IF a[i] = 34 THEN ~inside ELSE inside)
BytesFit(els, obs) ==
    LET F == Formats(els) n == Len(obs.body) IN
    /\ F \subseteq {"raw", "json"}
    /\ "raw" \in F => Len(obs.out) >= n /\ SubSeq(obs.out, 1, n) = obs.body
    /\ LET rest == IF "raw" \in F THEN SubSeq(obs.out, n + 1, Len(obs.out)) ELSE obs.out IN
       IF "json" \in F THEN SameText(rest, 1, obs.body, 1, FALSE) ELSE rest = <<>>

\* ---- files: accesses <<operation, path>>, and what exists afterwards
SandboxOk(run, els, obs) ==
    LET dir == DefaultDir(run) IN
    /\ \A i \in DOMAIN obs.files : LET op == obs.files[i][1] p == obs.files[i][2] IN
          \/ op = "read" /\ \E f \in DOMAIN Builtin : p = "{S}/" \o f
          \/ Value(els, "cache-dir", "default") # "" /\ (Under(p, dir) \/ (op = "mkdir" /\ Under(dir, p)))
    /\ \A i \in DOMAIN obs.tree : LET e == obs.tree[i] IN ~e.dir => e.what = "precious\n" \/ Under(e.path, dir)
Intact(fs, obs) == \A b \in fs.blocked : \E i \in DOMAIN obs.tree : obs.tree[i].path = b /\ ~obs.tree[i].dir /\ obs.tree[i].what = "precious\n"
Parent(p) == LET S == {i \in 1..Len(p) : At(p, i) = "/"} IN Take(p, (CHOOSE i \in S : \A j \in S : j <= i) - 1)
Registries(obs) == {i \in DOMAIN obs.tree : ~obs.tree[i].dir /\ obs.tree[i].what # "precious\n"}
FilesFit(fs, obs) ==
    /\ \A f \in fs.files : \E i \in Registries(obs) : Parent(obs.tree[i].path) = f.dir /\ obs.tree[i].at = f.at /\ obs.tree[i].what = "registry"
    /\ \A i \in Registries(obs) : obs.tree[i].what = "registry" /\ \E f \in fs.files : f.dir = Parent(obs.tree[i].path) /\ f.at = obs.tree[i].at
    /\ \A f \in fs.files : Cardinality({g \in fs.files : g.dir = f.dir}) = Cardinality({i \in Registries(obs) : Parent(obs.tree[i].path) = f.dir})
DirMade(run, els, obs) == LET dir == CacheDir(run, els) IN dir # "" => \E i \in DOMAIN obs.tree : obs.tree[i].path = dir /\ obs.tree[i].dir
=============================================================================
