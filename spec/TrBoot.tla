------------------------------- MODULE TrBoot -------------------------------
(* Acceptance of recorded histories of bootstrap clients: the specification   *)
(* is stepped through the script, and each observation compared. PROP selects *)
(* what is compared:                                                          *)
(*   C01 the outcome of lookups, and that a download was attempted when       *)
(*       the cached file was expired or missing                               *)
(*   C02 the number of requests                                               *)
(*   C03 everything, from the first failing operation on                      *)
(*   C04 the content lookups and accessors use, and the files                 *)
(*   C05 everything, and the names of the cached files                        *)
EXTENDS BootCache, Json, IOUtils
Prop == IOEnv.PROP

Value(o, b) == b.res = o.res /\ b.v \in o.v
Same(o, b) == Value(o, b) /\ b.urls = o.urls /\ b.files = o.files
Failing(s, op) == \/ op.op \in {"lookup", "download"} /\ op.f # "ok"
                  \/ op.op = "ext" /\ op.k \in Unusable
Match(cfg, s, op, o, b, failed) ==
    CASE Prop = "C01" -> op.op = "lookup" => /\ Value(o, b)
                                             /\ ~ Fresh(s, op.c, Key(cfg, op.c, op.t)) => Len(b.urls) >= 1
      [] Prop = "C02" -> /\ Len(b.urls) <= Len(o.urls)
                         /\ op.op = "download" => Len(b.urls) = 1
      [] Prop = "C03" -> failed => Same(o, b)
      [] Prop = "C04" -> /\ op.op \in {"lookup", "get", "race"} => Value(o, b)
                         /\ b.files = o.files
      [] OTHER -> Same(o, b)

\* The number of the first step whose observation is not allowed, 0 if none.
RECURSIVE Run(_, _, _, _, _)
Run(in, obs, i, s, failed) ==
    IF i > Len(in.ops) THEN [bad |-> 0]
    ELSE LET op == in.ops[i]
             r == Step(in.cfg, s, op)
             f == failed \/ Failing(s, op)
         IN IF Match(in.cfg, s, op, r.o, obs[i], f) THEN Run(in, obs, i + 1, r.s, f)
            ELSE [bad |-> i, op |-> op, allowed |-> r.o]
\* Names are distinct, and plain for the default service.
NamesOk(in, names) ==
    LET P == {<<v, t>> : v \in DOMAIN in.cfg.svcs, t \in DOMAIN in.cfg.types} IN
    /\ \A p, q \in P : p # q => names[p[1]][p[2]] # names[q[1]][q[2]]
    /\ \A p \in P : in.cfg.svcs[p[1]] = "https://data.iana.org/rdap/" => names[p[1]][p[2]] = FileNames[in.cfg.types[p[2]]]
Outcome(in, obs) ==
    IF "steps" \notin DOMAIN obs THEN [bad |-> -1]
    ELSE IF Prop = "C05" /\ ~ NamesOk(in, obs.names) THEN [bad |-> -2]
    ELSE Run(in, obs.steps, 1, Start(in.cfg), FALSE)
Allowed(in, obs) == Outcome(in, obs).bad = 0
Explain(in, obs) == Outcome(in, obs)
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
INSTANCE TraceCheck
=============================================================================
