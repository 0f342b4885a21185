----------------------------- MODULE TraceCheck -----------------------------
(* Generic acceptance of recorded executions {in, obs}: one step per line,    *)
(* in several independent lanes so that TLC's workers share the lines.        *)
(* A line whose observation is not the one the specification allows is        *)
(* reported with the specification's own outcome, and the rest still checked. *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANT Allowed(_, _)   \* Allowed(in, obs): BOOLEAN
CONSTANT Explain(_, _)   \* Explain(in, obs): what the specification says instead
CONSTANT Trace           \* the recorded executions
VARIABLE l               \* the next line of this lane

Lanes == 16
TInit == l \in 1..Lanes
TNext == /\ l <= Len(Trace)
         /\ LET rec == Trace[l] IN
            IF Allowed(rec.in, rec.obs) THEN TRUE
            ELSE PrintT(<<"MISMATCH", l, ToJson(Explain(rec.in, rec.obs))>>)
         /\ l' = l + Lanes
TSpec == TInit /\ [][TNext]_l
\* every line was consumed
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").distinct - Lanes>>)
=============================================================================
