------------------------------- MODULE TrReg --------------------------------
(* Recorded uses of one parsed registry: in is that of TrLookup or TrNet with *)
(* [order, conc]; obs [answers: sequence of [q, ans], same]: each answer with *)
(* the number of its question, and whether the registry's file is unchanged.  *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
D == INSTANCE DnsLookup
A == INSTANCE AsnLookup
G == INSTANCE TagLookup
W == INSTANCE NetLookup
One(in, q) ==
    IF "ver" \in DOMAIN in THEN
        IF "text" \in DOMAIN q THEN W!NetError
        ELSE LET U(i) == in.nets[i].urls IN W!NetExpect(in.nets, U, q)
    ELSE IF in.type = "dns" THEN D!DnsExpect(in.services, q)
    ELSE IF in.type = "asn" THEN A!AsnExpect(in.services, q)
    ELSE G!TagExpect(in.services, q)
Explain(in, obs) == [i \in DOMAIN in.queries |-> One(in, in.queries[i])]
Allowed(in, obs) ==
    /\ obs.same
    /\ (in.conc = 0 => [i \in DOMAIN obs.answers |-> obs.answers[i].q] = in.order)
    /\ (in.conc > 0 => {obs.answers[i].q : i \in DOMAIN obs.answers} = DOMAIN in.queries)
    /\ \A i \in DOMAIN obs.answers : obs.answers[i].ans = One(in, in.queries[obs.answers[i].q])
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
INSTANCE TraceCheck
=============================================================================
