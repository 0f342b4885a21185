------------------------------ MODULE CacheApi ------------------------------
(* Cache objects used directly: Save, Load, State, SetTimeout, InitDir.       *)
(* cfg.caches is a sequence of [kind, dir, ttl]; "disk" caches of one dir     *)
(* share its files. Contents are abstract names. A directory is "missing",    *)
(* "ok", or "broken" (its path is not a directory).                           *)
EXTENDS Integers, Sequences, TLC

Place(cfg, c) == IF cfg.caches[c].kind = "disk" THEN cfg.caches[c].dir ELSE 100 + c
Places(cfg) == 1..cfg.dirs \cup {100 + c : c \in DOMAIN cfg.caches}
FKeys(cfg) == {<<p, f>> : p \in Places(cfg), f \in 1..cfg.files}
None == [x |-> "absent", m |-> 0, w |-> 0]
Start(cfg) == [now |-> 0, w |-> 0,
    dirs |-> [d \in Places(cfg) |-> IF d > 100 THEN "ok" ELSE "missing"],
    files |-> [k \in FKeys(cfg) |-> None],
    ttl |-> [c \in DOMAIN cfg.caches |-> cfg.caches[c].ttl],
    seen |-> [c \in DOMAIN cfg.caches |-> [f \in 1..cfg.files |-> 0]]]

Out(s, res, x) == [s |-> s, o |-> [res |-> res, x |-> x]]
\* writes are numbered: seen[c][f] is the number of the version the cache object knows
Put(s, k, x) == [s EXCEPT !.w = @ + 1, !.files[k] = [x |-> x, m |-> s.now, w |-> s.w + 1]]

Save(cfg, s, c, f, x) == LET p == Place(cfg, c) k == <<p, f>> IN
    IF s.dirs[p] = "broken" THEN Out(s, "err", "")
    ELSE Out([Put(s, k, x) EXCEPT !.dirs[p] = "ok", !.seen[c][f] = s.w + 1], "ok", "")
\* the data cannot be written completely: an error, and the old file remains
SaveFail(cfg, s, c, f) == LET p == Place(cfg, c) IN
    Out(IF s.dirs[p] = "missing" THEN [s EXCEPT !.dirs[p] = "ok"] ELSE s, "err", "")
Load(cfg, s, c, f) == LET k == <<Place(cfg, c), f>> IN
    IF s.files[k].x \in {"absent", "dir"} THEN Out(s, "err", "")
    ELSE Out([s EXCEPT !.seen[c][f] = s.files[k].w], "ok", s.files[k].x)
State(cfg, s, c, f) == LET k == <<Place(cfg, c), f>> file == s.files[k] IN
    Out(s, IF file.x = "absent" THEN "absent" ELSE IF file.x = "dir" THEN "notgood"
           ELSE IF s.now - file.m >= s.ttl[c] THEN "expired"
           ELSE IF cfg.caches[c].kind = "disk" /\ s.seen[c][f] < file.w THEN "reload" ELSE "good", "")
InitDir(cfg, s, c) == LET p == Place(cfg, c) IN
    IF s.dirs[p] = "broken" THEN Out(s, "err", "")
    ELSE Out([s EXCEPT !.dirs[p] = "ok"], IF s.dirs[p] = "missing" THEN "created" ELSE "exists", "")
Gone(cfg, s, d) == [k \in FKeys(cfg) |-> IF k[1] = d THEN None ELSE s.files[k]]

Step(cfg, s, op) ==
    CASE op.op = "save"     -> Save(cfg, s, op.c, op.f, op.x)
      [] op.op = "savefail" -> IF s.dirs[Place(cfg, op.c)] = "broken" THEN Out(s, "err", "") ELSE SaveFail(cfg, s, op.c, op.f)
      [] op.op = "load"     -> Load(cfg, s, op.c, op.f)
      [] op.op = "state"    -> State(cfg, s, op.c, op.f)
      [] op.op = "initdir"  -> InitDir(cfg, s, op.c)
      [] op.op = "ttl"      -> Out([s EXCEPT !.ttl[op.c] = op.ttl], "ok", "")
      [] op.op = "tick"     -> Out([s EXCEPT !.now = @ + op.n], "ok", "")
      [] op.op = "extput"   -> IF s.dirs[op.d] = "broken" THEN Out(s, "ok", "")
                               ELSE Out([Put(s, <<op.d, op.f>>, op.x) EXCEPT !.dirs[op.d] = "ok"], "ok", "")
      \* dated three ticks ahead; a directory in the file's place
      [] op.op = "extfuture" -> Out([s EXCEPT !.w = @ + 1, !.dirs[op.d] = "ok", !.files[<<op.d, op.f>>] = [x |-> op.x, m |-> s.now + 3, w |-> s.w + 1]], "ok", "")
      [] op.op = "extdir"   -> Out([Put(s, <<op.d, op.f>>, "dir") EXCEPT !.dirs[op.d] = "ok"], "ok", "")
      [] op.op = "extrm"    -> Out([s EXCEPT !.files[<<op.d, op.f>>] = None], "ok", "")
      [] op.op = "rmdir"    -> Out([s EXCEPT !.dirs[op.d] = "missing", !.files = Gone(cfg, s, op.d)], "ok", "")
      [] op.op = "break"    -> Out([s EXCEPT !.dirs[op.d] = "broken", !.files = Gone(cfg, s, op.d)], "ok", "")
      \* the caller writes into every buffer it passed or received so far
      [] op.op = "scribble" -> Out(s, "ok", "")
=============================================================================
