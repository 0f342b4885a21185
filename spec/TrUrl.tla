------------------------------- MODULE TrUrl --------------------------------
EXTENDS RequestUrl, TLC, Json, IOUtils
Explain(in, obs) == IF in.server = <<>> THEN [nil |-> TRUE] ELSE LET e == Expect(in) IN [segs |-> e.segs, base |-> e.base]
Allowed(in, obs) == "url" \in DOMAIN obs /\ UrlOk(in, obs)
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
INSTANCE TraceCheck
=============================================================================
