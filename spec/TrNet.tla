------------------------------- MODULE TrNet --------------------------------
(* Acceptance of recorded IP lookups on real-sized addresses.                 *)
EXTENDS NetLookup, TLC, Json, IOUtils
One(in, q) ==
    IF "text" \in DOMAIN q THEN NetError
    ELSE LET U(i) == in.nets[i].urls IN NetExpect(in.nets, U, q)
Explain(in, obs) == [i \in DOMAIN in.queries |-> One(in, in.queries[i])]
Allowed(in, obs) == obs = Explain(in, obs)
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
INSTANCE TraceCheck
=============================================================================
