------------------------------ MODULE TrLookup ------------------------------
(* Acceptance of recorded text lookups: dns, asn, tag.                        *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
D == INSTANCE DnsLookup
A == INSTANCE AsnLookup
G == INSTANCE TagLookup
One(in, q) == IF in.type = "dns" THEN D!DnsExpect(in.services, q)
              ELSE IF in.type = "asn" THEN A!AsnExpect(in.services, q)
              ELSE G!TagExpect(in.services, q)
Explain(in, obs) == [i \in DOMAIN in.queries |-> One(in, in.queries[i])]
Allowed(in, obs) == obs = Explain(in, obs)
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
INSTANCE TraceCheck
=============================================================================
