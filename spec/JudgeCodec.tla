----------------------------- MODULE JudgeCodec -----------------------------
(***************************************************************************)
(* Conformance of decoders and encoders.  A decoder accepts exactly the    *)
(* byte strings the specification's accepts, and encoding what it returned *)
(* gives the same bytes back.  ev.st is the part of the verification state *)
(* that decoding depends on: [round, level].                               *)
(***************************************************************************)
EXTENDS Vdaf, Judge

DecoderOf(V, ev) ==
  CASE ev.what = "public" -> VDecPublic(V, ev.enc)
    [] ev.what = "input" -> VDecInput(V, ev.id, ev.enc)
    [] ev.what = "share" -> VDecShare(V, ev.st, ev.enc)
    [] ev.what = "message" -> VDecMessage(V, ev.st, ev.enc)
    [] ev.what \in {"out", "agg"} -> VDecOut(V, VDecParam(V, ev.param).val, ev.enc)
    [] ev.what = "param" -> VDecParam(V, ev.enc)

CodecCall(T, ev) ==
  LET V == T.Vs[ev.v] IN
  CASE ev.op = "dec" ->
         LET want == TLCEval(DecoderOf(V, ev))
         IN  IF ev.ok /\ ~want.ok THEN <<"decoder accepts what is no encoding", ev.what, ev.how>>
             ELSE IF ~ev.ok /\ want.ok THEN <<"decoder refuses an encoding", ev.what, ev.how>>
             ELSE IF ~ev.ok THEN Fine
             ELSE IF ev.re # ev.enc THEN <<"encoding of the decoded value differs", ev.what, ev.how>>
             ELSE IF ev.what = "param" /\ V.kind = "poplar1"
                  THEN Same("decoded aggregation parameter", ev.val, want.val)
             ELSE Fine
    [] ev.op = "encparam" -> Match("encoding of an aggregation parameter", ev.out, PopEncParam(V, ev.param))
    [] ev.op = "round" -> Check("a value changed by encoding and decoding", ev.eq)
=============================================================================
