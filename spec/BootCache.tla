----------------------------- MODULE BootCache ------------------------------
(* Bootstrap clients, their caches, the bootstrap services and time.          *)
(*                                                                            *)
(* A configuration cfg has: clients, a sequence of [kind, dir, svc, ttl]      *)
(* (kind "disk": cache directory dir, shared by all clients naming it; any    *)
(* other kind: a private cache), svcs (the services' base URLs), types, and   *)
(* dirs. A cached file is identified by <<directory, service, type>>.         *)
(* File contents are named: "absent", one of the unusable contents, or        *)
(* "<service>/<type>/<version>", a document served (or saved by another       *)
(* process) as that version. Time is counted in ticks; a file is fresh while  *)
(* its age in ticks is less than the timeout. With cfg.same, a service serves *)
(* the same document every time. A lookup asks for what the document lists    *)
(* ("hit"), for something it does not list ("miss"), or for something that is *)
(* not a valid question to the registry ("bad").                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Unusable == {"corrupt", "empty", "trunc", "wrongtype", "dir"}
Good(x) == x # "absent" /\ x \notin Unusable
FileNames == [dns |-> "dns.json", ipv4 |-> "ipv4.json", ipv6 |-> "ipv6.json", asn |-> "asn.json", tag |-> "object-tags.json"]

\* last character of a non-empty TLA+ string
LastCh(x) == SubSeq(x, Len(x), Len(x))
FetchURL(base, t) == base \o (IF LastCh(base) = "/" THEN "" ELSE "/") \o FileNames[t]

Dir(cfg, c) == IF cfg.clients[c].kind = "disk" THEN cfg.clients[c].dir ELSE 100 + c
Key(cfg, c, t) == <<Dir(cfg, c), cfg.clients[c].svc, t>>
TypeSet(cfg) == {cfg.types[i] : i \in DOMAIN cfg.types}
AllDirs(cfg) == 1..cfg.dirs \cup {100 + c : c \in DOMAIN cfg.clients}
Keys(cfg) == {<<d, v, t>> : d \in AllDirs(cfg), v \in DOMAIN cfg.svcs, t \in TypeSet(cfg)}
NoFile == [x |-> "absent", m |-> 0]
Start(cfg) == [now |-> 0, ver |-> 0, files |-> [k \in Keys(cfg) |-> NoFile],
               ttl |-> [c \in DOMAIN cfg.clients |-> cfg.clients[c].ttl],
               regs |-> [c \in DOMAIN cfg.clients |-> [t \in TypeSet(cfg) |-> {"none"}]]]

Doc(v, t, n) == ToString(v) \o "/" \o t \o "/" \o ToString(n)
\* the number of the next version
Num(cfg, s) == IF cfg.same THEN 1 ELSE s.ver + 1
Present(s, k) == s.files[k].x # "absent"
Fresh(s, c, k) == Present(s, k) /\ s.now - s.files[k].m < s.ttl[c]
Usable(s, c, k) == Fresh(s, c, k) /\ Good(s.files[k].x)

\* The files of the shared directories, in a fixed order.
Snapshot(cfg, s) == [d \in 1..cfg.dirs |-> [v \in DOMAIN cfg.svcs |-> [i \in DOMAIN cfg.types |->
    LET f == s.files[<<d, v, cfg.types[i]>>] IN
    IF f.x = "absent" THEN <<"absent", 0>> ELSE <<f.x, f.m>>]]]

Out(cfg, s, res, v, urls) == [s |-> s, o |-> [res |-> res, v |-> v, urls |-> urls, files |-> Snapshot(cfg, s)]]

\* One download: f says what goes wrong, if anything.
Fetch(cfg, s, c, t, f) ==
    LET k == Key(cfg, c, t)
        url == <<FetchURL(cfg.svcs[cfg.clients[c].svc], t)>>
        doc == Doc(cfg.clients[c].svc, t, Num(cfg, s))
        served == IF f \in {"ok", "savefail"} THEN [s EXCEPT !.ver = @ + 1] ELSE s
    IN IF f = "ok" /\ s.files[k].x # "dir"
       THEN Out(cfg, [served EXCEPT !.files[k] = [x |-> doc, m |-> s.now], !.regs[c][t] = {doc}], "ok", {doc}, url)
       ELSE Out(cfg, served, "err", {"none"}, url)

\* Lookup: an answer from the fresh, good cached file; else from a download.
Lookup(cfg, s, c, t, f) ==
    LET k == Key(cfg, c, t) IN
    IF Usable(s, c, k)
    THEN Out(cfg, [s EXCEPT !.regs[c][t] = {s.files[k].x}], "ok", {s.files[k].x}, <<>>)
    ELSE Fetch(cfg, s, c, t, f)
\* What a question gets from a registry.
Said(q, t, res, v) == IF res # "ok" \/ q = "hit" THEN [res |-> res, v |-> v]
    ELSE IF q = "bad" /\ t \in {"asn", "ipv4", "ipv6"} THEN [res |-> "err", v |-> {"none"}] ELSE [res |-> "ok", v |-> {"nomatch"}]
Ask(cfg, s, op) == LET r == Lookup(cfg, s, op.c, op.t, op.f) a == Said(op.q, op.t, r.o.res, r.o.v) IN [r EXCEPT !.o.res = a.res, !.o.v = a.v]

\* Registry accessors: the newest usable content, else the last good one.
\* Whether an expired file may be loaded is left open.
Get(cfg, s, c, t) ==
    LET k == Key(cfg, c, t)
        r == IF Usable(s, c, k) THEN {s.files[k].x}
             ELSE IF Good(s.files[k].x) THEN s.regs[c][t] \cup {s.files[k].x}
             ELSE s.regs[c][t]
    IN Out(cfg, [s EXCEPT !.regs[c][t] = r], "ok", r, <<>>)

\* The file is replaced by another process while the operation loads it: the
\* operation may see either version.
Race(cfg, s, op) ==
    LET k == Key(cfg, op.c, op.t)
        new == Doc(cfg.clients[op.c].svc, op.t, Num(cfg, s))
        r == {s.files[k].x, new}
        s2 == [s EXCEPT !.ver = @ + 1, !.files[k] = [x |-> new, m |-> s.now], !.regs[op.c][op.t] = r]
    IN Out(cfg, s2, "ok", r, <<>>)
RaceOk(cfg, s, op) == cfg.clients[op.c].kind = "disk" /\ Usable(s, op.c, Key(cfg, op.c, op.t))

\* Another process writes or removes a cached file.
Ext(cfg, s, op) ==
    LET k == <<op.d, op.v, op.t>> IN
    IF op.k = "remove" THEN Out(cfg, [s EXCEPT !.files[k] = NoFile], "ok", {"none"}, <<>>)
    ELSE IF op.k = "new"
    THEN Out(cfg, [s EXCEPT !.ver = @ + 1, !.files[k] = [x |-> Doc(op.v, op.t, Num(cfg, s)), m |-> s.now]], "ok", {"none"}, <<>>)
    ELSE Out(cfg, [s EXCEPT !.files[k] = [x |-> op.k, m |-> s.now]], "ok", {"none"}, <<>>)

Step(cfg, s, op) ==
    CASE op.op = "lookup"   -> Ask(cfg, s, op)
      [] op.op = "download" -> Fetch(cfg, s, op.c, op.t, op.f)
      [] op.op = "get"      -> Get(cfg, s, op.c, op.t)
      [] op.op = "race"     -> IF RaceOk(cfg, s, op) THEN Race(cfg, s, op) ELSE Out(cfg, s, "skip", {"none"}, <<>>)
      [] op.op = "ttl"      -> Out(cfg, [s EXCEPT !.ttl[op.c] = op.ttl], "ok", {"none"}, <<>>)
      [] op.op = "tick"     -> Out(cfg, [s EXCEPT !.now = @ + op.n], "ok", {"none"}, <<>>)
      [] op.op = "ext"      -> Ext(cfg, s, op)
      [] op.op = "rmdir"    -> Out(cfg, [s EXCEPT !.files = [k \in DOMAIN @ |-> IF k[1] = op.d THEN NoFile ELSE @[k]]], "ok", {"none"}, <<>>)
      \* a new client takes over, with the cache object of the old one; or that object
      \* is first used to save a document
      [] op.op = "client"   -> Out(cfg, [s EXCEPT !.regs[op.c] = [t \in DOMAIN @ |-> {"none"}]], "ok", {"none"}, <<>>)
      [] op.op = "seed"     -> Out(cfg, [s EXCEPT !.ver = @ + 1, !.regs[op.c] = [t \in DOMAIN @ |-> {"none"}],
                                          !.files[Key(cfg, op.c, op.t)] = [x |-> Doc(cfg.clients[op.c].svc, op.t, Num(cfg, s)), m |-> s.now]], "ok", {"none"}, <<>>)
      \* a new process takes over: new client and cache objects, same directory
      [] op.op = "new"      -> Out(cfg, [s EXCEPT !.ttl[op.c] = cfg.clients[op.c].ttl, !.regs[op.c] = [t \in DOMAIN @ |-> {"none"}],
                                          !.files = [k \in DOMAIN @ |-> IF k[1] = 100 + op.c THEN NoFile ELSE @[k]]], "ok", {"none"}, <<>>)
=============================================================================
