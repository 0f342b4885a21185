------------------------------ MODULE TrClient ------------------------------
(* Acceptance of recorded client sessions.                                    *)
EXTENDS RdapClient, Json, IOUtils
Explain(in, obs) == Expect(in)
Proj(x) == [k \in DOMAIN x |-> CASE IOEnv.PROP = "C15" -> <<x[k].r, x[k].carried>>
                                  [] IOEnv.PROP = "C35" -> <<x[k].r, x[k].same, x[k].kept>>
                                  [] OTHER -> <<x[k].r>>]
Allowed(in, obs) == "steps" \in DOMAIN obs /\ Proj(obs.steps) = Proj(Expect(in))
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
INSTANCE TraceCheck
=============================================================================
