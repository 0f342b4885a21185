------------------------------- MODULE MCBoot -------------------------------
(* The implementation's algorithm - in-memory registries, the modification    *)
(* time last loaded, the failed-load mark, save before use - run in lockstep  *)
(* with the abstract specification BootCache over every history of operations *)
(* up to a bound: whatever the algorithm answers, the specification allows.   *)
(* Every transition found is written out as a script for the real code.       *)
EXTENDS BootCache, Json, IOUtils
CONSTANTS Family, Depth, MaxVer, MaxTick

D(n) == [kind |-> "disk", dir |-> 1, svc |-> n, ttl |-> 2]
M(n) == [kind |-> "mem", dir |-> 0, svc |-> n, ttl |-> 2]
Iana == "https://data.iana.org/rdap/"
SvcA == "https://bootstrap.example/rdap"
SvcB == "https://bootstrap.example/other/"
SvcC == "http://data.iana.org/rdap/"
Same == Family = "same"
Cfg == CASE Family = "fresh-disk" -> [clients |-> <<D(1)>>, svcs |-> <<Iana>>, types |-> <<"dns">>, dirs |-> 1, same |-> Same]
         [] Family = "fresh-mem"  -> [clients |-> <<M(1)>>, svcs |-> <<SvcA>>, types |-> <<"asn">>, dirs |-> 1, same |-> Same]
         [] Family = "share"      -> [clients |-> <<D(1), D(1)>>, svcs |-> <<SvcB>>, types |-> <<"ipv4">>, dirs |-> 1, same |-> Same]
         [] Family = "fail-disk"  -> [clients |-> <<D(1)>>, svcs |-> <<Iana>>, types |-> <<"ipv6", "tag">>, dirs |-> 1, same |-> Same]
         [] Family = "fail-mem"   -> [clients |-> <<M(1)>>, svcs |-> <<Iana>>, types |-> <<"dns", "tag">>, dirs |-> 1, same |-> Same]
         [] Family = "same"       -> [clients |-> <<D(1), M(1)>>, svcs |-> <<Iana>>, types |-> <<"ipv4">>, dirs |-> 1, same |-> Same]
         [] Family = "cohere"     -> [clients |-> <<D(1), D(1)>>, svcs |-> <<Iana>>, types |-> <<"dns">>, dirs |-> 1, same |-> Same]
         [] Family = "isolate"    -> [clients |-> <<D(1), D(2), M(1)>>, svcs |-> <<Iana, SvcC>>, types |-> <<"ipv4", "asn">>, dirs |-> 1, same |-> Same]
         [] Family = "types"      -> [clients |-> <<D(1), D(2)>>, svcs |-> <<SvcA, SvcB>>, types |-> <<"dns", "ipv4", "ipv6", "asn", "tag">>, dirs |-> 1, same |-> Same]
C == DOMAIN Cfg.clients
T == TypeSet(Cfg)
V == DOMAIN Cfg.svcs
Lk(F) == [op : {"lookup"}, c : C, t : T, f : F, q : {"hit"}]
Ask_(Q) == [op : {"lookup"}, c : C, t : T, f : {"ok"}, q : Q]
Dl(F) == [op : {"download"}, c : C, t : T, f : F]
Gt == [op : {"get"}, c : C, t : T]
Tick == [op : {"tick"}, n : {1}]
Ttl(S) == [op : {"ttl"}, c : C, ttl : S]
New == [op : {"new"}, c : C]
Cl == [op : {"client"}, c : C]
Seed == [op : {"seed"}, c : C, t : T]
Ex(S) == [op : {"ext"}, d : {1}, v : V, t : T, k : S]
Rc == [op : {"race"}, c : C, t : T, how : {"lookup", "get"}]
AllFaults == {"ok", "neterr", "status", "short", "malformed", "savefail"}
Ops == CASE Family = "fresh-disk" -> Lk({"ok", "neterr"}) \cup Dl({"ok"}) \cup Gt \cup Tick \cup Ttl({0, 1, 2, 9}) \cup New \cup Cl \cup Ex({"remove", "new"}) \cup [op : {"rmdir"}, d : {1}]
         [] Family = "fresh-mem"  -> Lk({"ok", "neterr"}) \cup Dl({"ok", "status"}) \cup Gt \cup Tick \cup Ttl({0, 1, 2, 9}) \cup New \cup Cl \cup Seed
         [] Family = "share"      -> Ask_({"hit", "miss", "bad"}) \cup Dl({"ok"}) \cup Gt \cup Tick \cup Ttl({1, 9}) \cup New \cup Cl
         [] Family = "same"       -> Ask_({"hit", "miss"}) \cup Dl({"ok"}) \cup Gt \cup Tick \cup New \cup Cl \cup Ex({"new", "remove"})
         [] Family = "fail-disk"  -> Lk(AllFaults) \cup Dl(AllFaults) \cup Gt \cup Tick \cup Ex({"dir"}) \cup New \cup Cl
         [] Family = "fail-mem"   -> Lk(AllFaults \ {"savefail"}) \cup Dl(AllFaults \ {"savefail"}) \cup Gt \cup Tick \cup Cl \cup Seed
         [] Family = "cohere"     -> Lk({"ok", "malformed"}) \cup Dl({"ok"}) \cup Gt \cup Tick \cup Cl \cup Rc \cup Ex({"new", "remove"} \cup Unusable)
         [] Family = "isolate"    -> Lk({"ok", "neterr"}) \cup Dl({"ok", "malformed"}) \cup Gt \cup Ex({"new", "corrupt", "remove"}) \cup Tick
         [] Family = "types"      -> Lk({"ok"}) \cup Dl({"status"}) \cup Gt \cup Tick

-----------------------------------------------------------------------------
\* The algorithm. cur: the cache object has seen the file's current version.
\* bad: the last load failed. reg: the registry in memory.
AInit == [reg |-> [c \in C |-> [t \in T |-> "none"]], cur |-> [c \in C |-> [t \in T |-> FALSE]],
          bad |-> [c \in C |-> [t \in T |-> FALSE]]]
Disk(c) == Cfg.clients[c].kind = "disk"
\* file k was written by client c (0: by another process)
Written(a, k, c) == [a EXCEPT !.cur = [x \in C |-> [t \in T |->
    IF Key(Cfg, x, t) # k THEN @[x][t] ELSE x = c]]]
\* cache.State of file k for client c
State(s, a, c, t) == LET k == Key(Cfg, c, t) IN
    IF ~ Present(s, k) THEN "absent"
    ELSE IF ~ Fresh(s, c, k) THEN "expired"
    ELSE IF Disk(c) /\ ~ a.cur[c][t] THEN "reload"
    \* the cache object was in use before the client
    ELSE IF a.reg[c][t] = "none" /\ ~ a.bad[c][t] THEN "reload" ELSE "good"
\* results of loading: <<a', ok>>
Load(s, a, c, t) == LET k == Key(Cfg, c, t) x == s.files[k].x
                        seen == IF x = "dir" THEN a ELSE [a EXCEPT !.cur[c][t] = TRUE]
    IN IF Good(x) THEN [seen EXCEPT !.reg[c][t] = x, !.bad[c][t] = FALSE]
       ELSE [seen EXCEPT !.bad[c][t] = TRUE]
R(a, res, v) == [a |-> a, res |-> res, v |-> v]
ADownload(s, a, c, t, f) == LET k == Key(Cfg, c, t) doc == Doc(Cfg.clients[c].svc, t, Num(Cfg, s)) IN
    IF f = "ok" /\ s.files[k].x # "dir"
    THEN R([Written(a, k, c) EXCEPT !.reg[c][t] = doc, !.bad[c][t] = FALSE], "ok", doc)
    ELSE R(a, "err", "none")
ALookup(s, a, c, t, f) ==
    LET st == State(s, a, c, t)
        a1 == IF st = "reload" THEN Load(s, a, c, t) ELSE a
        force == st \in {"absent", "expired"} \/ a1.bad[c][t]
    IN IF force \/ a1.reg[c][t] = "none" THEN ADownload(s, a1, c, t, f) ELSE R(a1, "ok", a1.reg[c][t])
AGet(s, a, c, t) == LET a1 == IF State(s, a, c, t) = "reload" THEN Load(s, a, c, t) ELSE a
                    IN R(a1, "ok", a1.reg[c][t])
\* stat, then the replacement, then the read of the old or the new content
ARace(s, a, op) ==
    LET c == op.c  t == op.t  k == Key(Cfg, c, t)  new == Doc(Cfg.clients[c].svc, t, Num(Cfg, s))
    IN IF State(s, a, c, t) # "reload"
       THEN {R(Written(a, k, 0), "ok", a.reg[c][t])}
       ELSE {R([Written(a, k, 0) EXCEPT !.reg[c][t] = x, !.bad[c][t] = FALSE], "ok", x) : x \in {s.files[k].x, new}}
ASteps(s, a, op) ==
    CASE op.op = "lookup"   -> {LET b == ALookup(s, a, op.c, op.t, op.f) x == Said(op.q, op.t, b.res, {b.v}) IN R(b.a, x.res, CHOOSE v \in x.v : TRUE)}
      [] op.op = "download" -> {ADownload(s, a, op.c, op.t, op.f)}
      [] op.op = "get"      -> {AGet(s, a, op.c, op.t)}
      [] op.op = "race"     -> ARace(s, a, op)
      [] op.op = "ext"      -> {R(Written(a, <<op.d, op.v, op.t>>, 0), "ok", "none")}
      [] op.op = "new"      -> {R([a EXCEPT !.reg[op.c] = AInit.reg[op.c], !.cur[op.c] = AInit.cur[op.c], !.bad[op.c] = AInit.bad[op.c]], "ok", "none")}
      [] op.op = "client"   -> {R([a EXCEPT !.reg[op.c] = AInit.reg[op.c], !.bad[op.c] = AInit.bad[op.c]], "ok", "none")}
      [] op.op = "seed"     -> {R([Written(a, Key(Cfg, op.c, op.t), op.c) EXCEPT !.reg[op.c] = AInit.reg[op.c], !.bad[op.c] = AInit.bad[op.c]], "ok", "none")}
      [] OTHER              -> {R(a, "ok", "none")}

-----------------------------------------------------------------------------
VARIABLES s, a, hist, ok
vars == <<s, a, hist, ok>>
View == <<s, a, ok>>
Init == s = Start(Cfg) /\ a = AInit /\ hist = <<>> /\ ok = TRUE
Bound == Len(hist) < Depth
Do(op) ==
    /\ op.op = "race" => RaceOk(Cfg, s, op)
    /\ op.op \in {"lookup", "download", "race", "seed"} \/ (op.op = "ext" /\ op.k = "new") => s.ver < MaxVer
    /\ op.op = "tick" => s.now < MaxTick
    /\ op.op = "ext" /\ op.k = "remove" => Present(s, <<op.d, op.v, op.t>>)
    /\ LET r == Step(Cfg, s, op) IN
       /\ s' = r.s
       /\ \E b \in ASteps(s, a, op) :
            /\ a' = b.a
            /\ ok' = (b.res = r.o.res /\ b.v \in r.o.v)
    /\ hist' = Append(hist, op)
    /\ PrintT(<<"S", ToJson(hist')>>)
Next == Bound /\ \E op \in Ops : Do(op)
\* Refinement of the specification, observation by observation.
Refines == ok
\* The stated guarantees, on the specification itself.
NeverStale == [][\A op \in Ops : hist' = Append(hist, op) /\ op.op = "lookup" =>
    LET k == Key(Cfg, op.c, op.t) o == Step(Cfg, s, op).o IN
    /\ ~ Fresh(s, op.c, k) => o.urls # <<>>
    /\ o.res = "ok" \/ Lookup(Cfg, s, op.c, op.t, op.f).o.res = "ok" => Fresh(s', op.c, k) \/ s'.files[k].m = s.now]_vars
=============================================================================
