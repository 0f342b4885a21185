------------------------------- MODULE TrCard -------------------------------
EXTENDS JCard, IOUtils
Explain(in, obs) == [valid |-> ValidCard(in.card, in.ignore)]
Allowed(in, obs) == /\ "props" \in DOMAIN obs
                    /\ IF ValidCard(in.card, in.ignore) THEN ~obs.err /\ CardOk(in.card, obs.props) ELSE obs.err /\ obs.nil
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
INSTANCE TraceCheck
=============================================================================
