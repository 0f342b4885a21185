----------------------------- MODULE MCCliHist ------------------------------
(* Histories of command line runs over cache directories, bootstrap services, *)
(* periods and time: what later runs ask for and find. TLC explores them,     *)
(* checks the guarantees below on every transition, and hands out the         *)
(* histories for execution by the real client (judged by TrCli).              *)
EXTENDS CliRun, SequencesExt
CONSTANTS Depth
Host(n, out) == [host |-> n, out |-> out, cert |-> "good"]
World(ok) == <<Host("s1.example", "dom"), Host("s3.example", "ent"), Host("data.iana.org", IF ok THEN "boot" ELSE "boot500"), Host("bs1.example", IF ok THEN "boot" ELSE "bootcut"), Host("test.rdap.net", IF ok THEN "boot" ELSE "neterr")>>
Dirs_ == {<<>>, <<"--cache-dir={D}/c/d">>, <<"--cache-dir", "">>}
Ttls == {<<>>, <<"--bs-ttl=10">>, <<"--bs-ttl", "0">>}
Svcs == {<<>>, <<"--bs-url=https://bs1.example/r">>}
Asks == {<<"x.example">>, <<"192.0.2.1">>}
Servers(v) == IF v % 2 = 0 THEN <<"https://s1.example/a">> ELSE <<"https://s3.example/b">>
VARIABLES fs, now, n, hist, last
vars == <<fs, now, n, hist, last>>
Old == 4000
\* states that differ only in how long ago things happened, beyond every period, are the same
View == <<{[dir |-> f.dir, svc |-> f.svc, reg |-> f.reg, age |-> IF now - f.at > Old THEN Old ELSE now - f.at, servers |-> f.servers] : f \in fs.files}, fs.blocked, n % 2>>
None == [args |-> <<>>]
Init == fs = [files |-> {}, blocked |-> {}] /\ now = 0 /\ n = 0 /\ hist = <<>> /\ last = None
Do(args, ok, pre, at) ==
    LET run == [proc |-> 1, args |-> args, sandbox |-> FALSE, now |-> at, xdg |-> "", servers |-> Servers(n), hosts |-> World(ok), body |-> <<>>, pre |-> pre]
        res == Outcome(run, fs) IN
    /\ fs' = res.fs /\ now' = at /\ n' = n + 1
    /\ hist' = Append(hist, run)
    /\ last' = [args |-> args, ok |-> ok, pre |-> pre, step |-> at - now, exit |-> res.exit, kind |-> res.kind, boots |-> Cardinality({i \in DOMAIN res.reqs : res.reqs[i].kind = "exact"})]
    /\ PrintT(<<"S", ToJson(hist')>>)
Next == /\ Len(hist) < Depth
        /\ \E d \in Dirs_, t \in Ttls, s \in Svcs, a \in Asks, ok \in {TRUE, FALSE}, step \in {0, 10, 3600} :
             \* (an outage, a named period and a second registry, one at a time)
             /\ Cardinality({x \in {1, 2, 3} : (x = 1 /\ ~ok) \/ (x = 2 /\ t # <<>>) \/ (x = 3 /\ a # <<"x.example">>)}) <= 1
             /\ \E pre \in {<<>>} \cup (IF step = 0 /\ ok /\ t = <<>> /\ hist # <<>> THEN {<<<<"rmdir", "{D}/home/.cache">>>>, <<<<"file", "{D}/c">>>>} ELSE {}) :
                  (pre # <<>> /\ pre[1][1] = "file" => ~\E i \in DOMAIN hist : hist[i].args[1] = "--cache-dir={D}/c/d")
                  /\ Do(d \o t \o s \o a, ok, pre, now + step)
-----------------------------------------------------------------------------
\* what each command line means, evaluated once
Info == [args \in {d \o t \o s \o a : d \in Dirs_, t \in Ttls, s \in Svcs, a \in Asks} |->
    LET e == Parsed(args).els IN [dir |-> CacheDir([xdg |-> "", sandbox |-> FALSE], e), svc |-> Service(e), reg |-> RegOf(Request(e, Parsed(args).q)), ttl |-> Ttl(e)]]
Mine(f) == LET i == Info[last'.args] IN f.dir = i.dir /\ f.svc = i.svc /\ f.reg = i.reg
Held == Before(fs, last'.pre)
\* a run within the period asks no bootstrap service; one after it does, and a success renews the file
Shares == [][LET F == {f \in Held.files : Mine(f)} i == Info[last'.args] IN
             /\ (\E f \in F : now' - f.at < i.ttl) => last'.boots = 0
             /\ (\A f \in F : now' - f.at >= i.ttl) /\ last'.kind # "misuse" => last'.boots <= 1 /\ (last'.exit = 0 => last'.boots = 1)
             /\ last'.boots = 1 /\ last'.exit = 0 /\ i.dir # "" => \E f \in fs'.files : Mine(f) /\ f.at = now']_vars
\* runs do not touch each other's files
Isolated == [][\A f \in Held.files : ~Mine(f) => f \in fs'.files]_vars
MemoryKeepsNothing == [][Info[last'.args].dir = "" => fs'.files = Held.files]_vars
FailuresKeepOld == [][last'.boots = 1 /\ last'.exit = 1 => fs'.files = Held.files]_vars
=============================================================================
