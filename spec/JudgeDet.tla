------------------------------ MODULE JudgeDet ------------------------------
(***************************************************************************)
(* Every call is a function of its arguments.  The state maps the calls    *)
(* made so far to their results; a call is identified by the operation and *)
(* its arguments.                                                          *)
(***************************************************************************)
EXTENDS Judge

DetCall(s, ev) ==
  IF ev.changed THEN [bad |-> <<"a call modified what was passed to it", ev.id>>, st |-> s]
  ELSE IF ev.id \in DOMAIN s
  THEN [bad |-> IF s[ev.id] = ev.res THEN Fine ELSE <<"the result depends on more than the arguments, or was modified afterwards", ev.how, ev.id>>, st |-> s]
  ELSE [bad |-> Fine, st |-> s @@ (ev.id :> ev.res)]
=============================================================================
