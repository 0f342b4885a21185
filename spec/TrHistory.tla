----------------------------- MODULE TrHistory ------------------------------
(* Recorded histories: in [docs, ...], obs [objs]: every result its owner did *)
(* not modify, with the text printed from it: [doc, err, type, obj, out].     *)
EXTENDS RdapDecode, RdapPrint, IOUtils
Plain0 == [n |-> FALSE, r |-> FALSE, b |-> FALSE, l |-> FALSE, char |-> "", size |-> 0]
ResultOk(doc, r) ==
    LET t == DocType(doc) IN
    /\ r.type = t /\ r.err = (t = "error")
    /\ t # "error" => /\ Everywhere("fields", t, Members(doc), r.obj) /\ Everywhere("data", t, Members(doc), r.obj) /\ Everywhere("cards", t, Members(doc), r.obj)
                      /\ r.out = Printed(Plain0, r.obj) \o <<"">>
Explain(in, obs) == IF "objs" \in DOMAIN obs THEN [wrong |-> {i \in DOMAIN obs.objs : ~ResultOk(in.docs[obs.objs[i].doc], obs.objs[i])}] ELSE [wrong |-> {}]
Allowed(in, obs) == "objs" \in DOMAIN obs /\ \A i \in DOMAIN obs.objs : ResultOk(in.docs[obs.objs[i].doc], obs.objs[i])
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
INSTANCE TraceCheck
=============================================================================
