------------------------------- MODULE TrJson -------------------------------
(* Recorded decodes of arbitrary bytes: in [raw], obs [err, type, untouched]. *)
EXTENDS RdapDecode, JsonText, IOUtils
Explain(in, obs) == LET r == Parse(in.raw) IN [json |-> r.ok, type |-> IF r.ok THEN DocType(r.v) ELSE "error"]
Allowed(in, obs) == LET r == Parse(in.raw)
                        t == IF r.ok THEN DocType(r.v) ELSE "error" IN
    "type" \in DOMAIN obs /\ obs.untouched /\ ((r.ok /\ r.open) \/ (obs.type = t /\ obs.err = (t = "error")))
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
INSTANCE TraceCheck
=============================================================================
