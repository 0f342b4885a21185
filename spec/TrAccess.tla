------------------------------ MODULE TrAccess ------------------------------
EXTENDS JCard, IOUtils
Explain(in, obs) == LET ps == in.props IN [name |-> Text1(ps, "fn"), email |-> Text1(ps, "email"), org |-> Text1(ps, "org"), tel |-> Tels(ps), fax |-> Faxes(ps), adr |-> [k \in 1..7 |-> Adr(ps, k)]]
Allowed(in, obs) == "Name" \in DOMAIN obs /\ AccessOk(in.props, obs)
    /\ \A g \in DOMAIN obs.gets :
        LET x == obs.gets[g]
            all == SelectSeq([i \in DOMAIN in.props |-> i], LAMBDA i : in.props[i].name = x.name)
        IN x.all = all /\ x.first = IF all = <<>> THEN 0 ELSE all[1]
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
INSTANCE TraceCheck
=============================================================================
