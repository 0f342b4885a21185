------------------------------ MODULE TrPrint -------------------------------
(* Recorded printing: in [doc, opts], obs [obj, outs, again, whois].          *)
EXTENDS RdapPrint, IOUtils
View == IOEnv.VIEW
Explain(in, obs) == IF "obj" \notin DOMAIN obs THEN [none |-> TRUE]
    ELSE IF View = "whois" THEN [whois |-> Whois(obs.obj)] ELSE [outs |-> [i \in DOMAIN in.opts |-> Printed(in.opts[i], obs.obj) \o <<"">>]]
Allowed(in, obs) ==
    /\ "err" \in DOMAIN obs
    /\ \/ obs.err
       \/ View = "whois" /\ (WhoisOpen(obs.obj) \/ (obs.whois = Whois(obs.obj) /\ obs.whoisKeys = Len(obs.whois)))
       \/ /\ View = "text"
          /\ obs.again
          /\ \A i \in DOMAIN in.opts : obs.outs[i] = Printed(in.opts[i], obs.obj) \o <<"">>
          /\ (in.opts # <<>>) => (obs.bare = Printed(in.opts[1], Bare(obs.obj)) \o <<"">>)
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
INSTANCE TraceCheck
=============================================================================
