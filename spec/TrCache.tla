------------------------------- MODULE TrCache ------------------------------
(* Acceptance of recorded histories of cache objects.                         *)
EXTENDS CacheApi, Json, IOUtils
RECURSIVE Run(_, _, _, _)
Run(in, obs, i, s) ==
    IF i > Len(in.ops) THEN [bad |-> 0]
    ELSE LET r == Step(in.cfg, s, in.ops[i]) IN
         IF obs[i] = r.o \/ (r.o.res = "notgood" /\ obs[i].res # "good") THEN Run(in, obs, i + 1, r.s)
         ELSE [bad |-> i, op |-> in.ops[i], allowed |-> r.o]
Outcome(in, obs) == IF "steps" \notin DOMAIN obs THEN [bad |-> -1] ELSE Run(in, obs.steps, 1, Start(in.cfg))
Allowed(in, obs) == Outcome(in, obs).bad = 0
Explain(in, obs) == Outcome(in, obs)
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
INSTANCE TraceCheck
=============================================================================
