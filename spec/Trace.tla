------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Checks recorded executions of the code (a JSON file) against the        *)
(* specification.  There is one behaviour per recorded trace; each step    *)
(* consumes one event, and the verdict on it, if not empty, names the      *)
(* clause that fails.                                                      *)
(***************************************************************************)
EXTENDS JudgeAlg, JudgeVdaf, JudgeIdpf, JudgeCodec, JudgeFlp, JudgeAgg, JudgePingPong, JudgeRun, JudgeDriver, JudgeShamir, JudgeVectors, JudgeParams, JudgeMask, JudgeDet, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, st, bad
vars == <<t, i, st, bad>>

Judge(T, s, ev) ==
  LET keep(v) == [bad |-> v, st |-> s] IN
  CASE ev.k = "field" -> keep(FieldOp(ev))
    [] ev.k = "fparams" -> keep(FieldParams(ev))
    [] ev.k = "bytes" -> keep(BytesOp(ev))
    [] ev.k = "poly" -> keep(PolyOp(ev))
    [] ev.k = "xof" -> XofOp(s, ev)
    [] ev.k = "vdaf" -> VdafCall(T, s, ev)
    [] ev.k = "scn" -> keep(RunScenario(T, ev))
    [] ev.k = "joint" -> keep(JointCall(T, ev))
    [] ev.k = "ideal" -> keep(IdealRun(T, ev))
    [] ev.k = "idpf" -> keep(IdpfCall(T, ev))
    [] ev.k = "codec" -> keep(CodecCall(T, ev))
    [] ev.k = "flp" -> keep(FlpCall(T, ev))
    [] ev.k = "agg" -> keep(AggCall(T, ev))
    [] ev.k = "pp" -> PingPongCall(T, s, ev)
    [] ev.k = "frame" -> keep(FrameCall(ev))
    [] ev.k = "driver" -> keep(DriverRun(ev))
    [] ev.k = "refuse" -> keep(Check(ev.what, ~ev.out))
    [] ev.k = "sss" -> keep(ShamirCall(T, ev))
    [] ev.k = "vecshape" -> keep(VectorShape(ev))
    [] ev.k = "param" -> keep(ParamCall(ev))
    [] ev.k = "mask" -> keep(MaskCall(ev))
    [] ev.k = "det" -> DetCall(s, ev)
    [] ev.k = "same" -> keep(IF ev.a = ev.b THEN Fine ELSE <<"must be equal", ev.what>>)
    [] ev.k = "differ" -> keep(IF ev.a # ev.b THEN Fine ELSE <<"must differ", ev.what>>)
    [] ev.k = "crash" -> keep(<<"unexpected failure of a call", ev.err>>)

Init == t \in 1..Len(Traces) /\ i = 0 /\ st = <<>> /\ bad = Fine
Next ==
  /\ bad = Fine
  /\ i < Len(Traces[t].ev)
  /\ LET j == TLCEval(Judge(Traces[t], st, Traces[t].ev[i + 1]))
     IN  bad' = j.bad /\ st' = j.st
  /\ i' = i + 1
  /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Conforms == bad = Fine
RECURSIVE TotalTo(_)
TotalTo(n) == IF n = 0 THEN 0 ELSE TotalTo(n - 1) + Len(Traces[n].ev) + 1
AllConsumed == TLCGet("distinct") = TotalTo(Len(Traces))
=============================================================================
