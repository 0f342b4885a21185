------------------------------- MODULE TrAuto -------------------------------
EXTENDS AutoRequest, TLC, Json, IOUtils
Explain(in, obs) == [class |-> Class(in.t)]
Allowed(in, obs) == "type" \in DOMAIN obs /\ AutoOk(in.t, obs)
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
INSTANCE TraceCheck
=============================================================================
