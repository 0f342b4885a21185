------------------------------- MODULE TrCli --------------------------------
(* Recorded runs of the command line client: in [runs], obs [runs], judged in *)
(* order, the cached files carried along. PROP selects the property.          *)
EXTENDS CliRun, IOUtils
Prop == IOEnv.PROP
Empty == [files |-> {}, blocked |-> {}]
Streams(run, res, o) ==
    LET els == Parsed(run.args).els IN
    /\ o.exit = res.exit
    /\ res.exit = 1 => (res.kind = "usage" \/ o.stderr # <<>>)
    /\ CASE res.kind = "printed" -> StdoutFits(els, o)
         [] res.kind = "version" -> Starts(o.text, "OpenRDAP v") /\ Ends(o.text, "\n")
         [] res.kind = "usage" -> Len(o.text) > 100
         [] OTHER -> o.text = ""
    /\ res.kind \in {"misuse", "usage", "version"} => o.reqs = <<>> /\ o.dials = <<>>
    /\ res.kind = "printed" => (o.stderr # <<>>) = IsOn(els, "verbose")
RunOk(run, res, fs, o) ==
    LET els == Parsed(run.args).els IN
    /\ "died" \notin DOMAIN o /\ o.panic = ""
    /\ CASE Prop \in {"C25", "C26", "C27"} -> Streams(run, res, o)
         [] Prop = "C28" -> o.exit = res.exit /\ (res.kind = "printed" => BytesFit(els, o))
         [] Prop = "C29" -> o.exit = res.exit /\ ReqsFit(res, o.reqs)
         [] Prop = "C30" -> o.exit = res.exit /\ Intact(res.fs, o) /\ Len(o.reqs) = Len(res.reqs)
                            /\ (Parsed(run.args).kind # "run" \/ IF Sandboxed(run, els) THEN SandboxOk(run, els, o) /\ CertsFit(res, o.reqs) ELSE FilesFit(res.fs, o) /\ CertsFit(res, o.reqs))
         [] Prop = "C31" -> o.exit = res.exit /\ ReqsFit(res, o.reqs) /\ CertsFit(res, o.reqs) /\ (res.kind = "misuse" => o.dials = <<>>)
         [] Prop = "C32" -> o.exit = res.exit /\ ReqsFit(res, o.reqs) /\ FilesFit(res.fs, o) /\ Intact(res.fs, o)
                            /\ (res.kind \in {"printed", "failed"} => DirMade(run, els, o))
         [] Prop = "C34" -> o.exit = res.exit /\ ReqsFit(res, o.reqs) /\ (res.exit = 1 => o.text = "") /\ o.ms >= 100 * res.t - 100 /\ o.ms < 100 * res.t + 6000
RECURSIVE Judge(_, _, _, _)
\* the runs that are not as specified: <<index, expected outcome>>
Judge(runs, obs, i, fs) == IF i > Len(runs) THEN <<>>
    ELSE LET res == Outcome(runs[i], fs) IN
         (IF RunOk(runs[i], res, fs, obs[i]) THEN <<>> ELSE <<[run |-> i, spec |-> [exit |-> res.exit, kind |-> res.kind, reqs |-> res.reqs, cert |-> res.cert, r |-> res.r, files |-> res.fs]]>>)
         \o Judge(runs, obs, i + 1, res.fs)
Explain(in, obs) == IF "runs" \in DOMAIN obs THEN Judge(in.runs, obs.runs, 1, Empty) ELSE <<>>
Allowed(in, obs) == "runs" \in DOMAIN obs /\ Len(obs.runs) = Len(in.runs) /\ Judge(in.runs, obs.runs, 1, Empty) = <<>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
INSTANCE TraceCheck
=============================================================================
