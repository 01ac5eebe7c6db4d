---------------------------- MODULE JudgeDriver -----------------------------
(***************************************************************************)
(* Conformance of the drivers: the calls a run made on a scheme, in order, *)
(* are a behaviour of module Driver; the run returns the aggregate result  *)
(* exactly if no step failed.                                              *)
(***************************************************************************)
EXTENDS Driver

Replay(P, calls) ==
  FoldLeft(LAMBDA a, c : IF a.bad # Fine THEN a
                         ELSE LET v == May(P, a.S, c)
                              IN  [bad |-> v, S |-> IF v = Fine THEN TLCEval(After(P, a.S, c)) ELSE a.S],
           [bad |-> Fine, S |-> Start], calls)
DriverRun(ev) ==
  LET a == TLCEval(Replay(ev.run, ev.calls))
      failed == ev.fail # <<>>
  IN  IF a.bad # Fine THEN <<"driver">> \o a.bad
      ELSE IF ev.out.ok
      THEN IF failed THEN <<"a result in spite of a failure of", ev.fail>>
           ELSE FirstBad(<<
             Same("the result returned is not the aggregate result", ev.out.val, SResult),
             Check("a step of the protocol was left out", Duties(ev.run) \subseteq a.S.did) >>)
      ELSE IF ~failed THEN <<"no result of an honest run", ev.out.err>>
      \* the run ended with the failing call
      ELSE IF ev.calls = <<>> \/ Name(ev.calls[Len(ev.calls)]) # ev.fail
      THEN <<"the run went on after a failure", ev.fail>>
      ELSE Fine
=============================================================================
