------------------------------- MODULE TrFile -------------------------------
(* Acceptance of recorded parses of registry documents.                       *)
EXTENDS RegFile, TLC, Json, IOUtils
Explain(in, obs) == FileExpect(in.services, in.meta, in.names)
Allowed(in, obs) == obs = Explain(in, obs)
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
INSTANCE TraceCheck
=============================================================================
