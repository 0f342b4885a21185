------------------------------- MODULE TrRes --------------------------------
(* Acceptance of recorded operations: the events of each, then what was still *)
(* open and what was left behind when it returned.                            *)
EXTENDS Resources, TLC, Json, IOUtils
StepOk(b) == /\ MayReturn(After(Idle, b.ev, 1))
             /\ b.fds = <<>>    \* files still open
             /\ b.left = <<>>   \* files in the cache directories that are no cache files
Bad(obs) == {i \in DOMAIN obs.res : ~ StepOk(obs.res[i])}
Allowed(in, obs) == "res" \in DOMAIN obs /\ Len(obs.res) = (IF "ops" \in DOMAIN in THEN Len(in.ops) ELSE Len(in.reqs)) /\ Bad(obs) = {}
Explain(in, obs) == IF "res" \in DOMAIN obs THEN [bad |-> Bad(obs), obs |-> [i \in Bad(obs) |-> obs.res[i]]] ELSE [bad |-> {}]
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
INSTANCE TraceCheck
=============================================================================
