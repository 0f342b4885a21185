------------------------------ MODULE TrDecode ------------------------------
(* Recorded decodes: in [doc], obs [err, type, obj, untouched].               *)
EXTENDS RdapDecode, IOUtils
View == IOEnv.VIEW
Explain(in, obs) == [type |-> DocType(in.doc), view |-> View]
Allowed(in, obs) ==
    LET t == DocType(in.doc) IN
    /\ "type" \in DOMAIN obs
    /\ CASE View = "type" -> obs.type = t /\ obs.err = (t = "error") /\ obs.untouched
         [] OTHER -> t = "error" \/ obs.type # t \/ Everywhere(View, t, Members(in.doc), obs.obj)
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
INSTANCE TraceCheck
=============================================================================
