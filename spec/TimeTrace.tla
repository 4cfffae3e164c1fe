----------------------------- MODULE TimeTrace -----------------------------
(* Time control of a whole run of the driver (C11, C12).                    *)
(*                                                                          *)
(* Times are integers (ticks).  The state holds the time, the iteration,    *)
(* the interval [lo, hi] the unrestricted step may lie in, and the next     *)
(* output time of the three channels.  One line per iteration: the time of  *)
(* every rank, the smallest limit of every rank for every evaluation, and   *)
(* what the channels recorded.  tol is 0 unless the intervals of the        *)
(* scenario are not representable.                                          *)
EXTENDS TraceBase

INSTANCE TimeRules WITH conf <- Sc

StepOk(s, t1) ==
  LET d == t1 - s.t
  IN  IF Sc.adaptive
      THEN /\ Chk("C11", "step passes an output time", ~PassesOutput(s, d))
           /\ Chk("C11", "step exceeds the stability limit or twice the last step", ~BeyondLimit(s, d))
           /\ Chk("C11", "step too short although no output is due", ~TooShort(s, d))
      ELSE Chk("C11", "fixed step changed", d >= Sc.dt0 - Tol /\ d <= Sc.dt0 + Tol)

\* the channel must, may record now (they differ only by the tolerance)
Must(s, c, first, t) ==
  IF ByTime(c) THEN first \/ (IF Tol = 0 THEN t >= s.nxt[c] ELSE t > s.nxt[c] + Tol)
  ELSE Sc.ch[c].every > 0 /\ E.it % Sc.ch[c].every = 0
May(s, c, first, t) ==
  IF ByTime(c) THEN first \/ t >= s.nxt[c] - Tol ELSE Must(s, c, first, t)

Stamp(f, t) == f.it = E.it /\ Abs(f.t - t) <= Tol

Fires(s, first, t) ==
  \A c \in Chans :
    LET n == IF c = 3 THEN Sc.ranks ELSE 1
    IN  /\ Chk("C12", "output not due", Len(E.f[c]) = 0 \/ May(s, c, first, t))
        /\ Chk("C12", "output missing", Len(E.f[c]) > 0 \/ ~Must(s, c, first, t))
        /\ Chk("C12", "not one record", Len(E.f[c]) \in {0, n})
        /\ Chk("C12", "record stamped wrongly", \A i \in DOMAIN E.f[c] : Stamp(E.f[c][i], t))

AllSame(q) == \A i \in DOMAIN q : q[i] = q[1]

Arrive(first) ==       \* the line's iteration and time are the next ones
  /\ Chk("C11", "ranks take different steps", AllSame(E.t) /\ Len(E.t) = Sc.ranks)
  /\ IF first
     THEN /\ Chk("C12", "first iteration or time", E.it = Sc.it0 /\ Abs(E.t[1] - Sc.t0) <= Tol)
     ELSE /\ Chk("C11", "time does not advance", E.pos)
          /\ Chk("C12", "iterations not consecutive", E.it = st.it + 1)
          /\ StepOk(st, E.t[1])

Iter ==
  LET first == st.first
      t     == E.t[1]
      I0    == IF first THEN [lo |-> Sc.dt0, hi |-> Sc.dt0] ELSE After(st, t - st.t)
      ok    == /\ Arrive(first)
               /\ ~first => Chk("C12", "run continues beyond its last iteration", More([it |-> E.it, t |-> t]))
               /\ Fires(st, first, t)
               /\ Chk("C11", "limit not evaluated for every particle on every rank",
                      Sc.adaptive => /\ Len(E.lim) >= 1
                                     /\ \A i \in DOMAIN E.lim : E.cnt[i] = Sc.n)
  IN \E I \in {TLCEval(IF Sc.adaptive THEN Limits(I0, E.lim, 1) ELSE I0)} :
     Goto(ok, [st EXCEPT !.first = FALSE, !.t = t, !.it = E.it, !.lo = I.lo, !.hi = I.hi,
                         !.nxt = [c \in Chans |-> IF ~ByTime(c) THEN 0 ELSE IF E.f[c] = <<>> /\ ~first THEN st.nxt[c] ELSE NextOut(c, t)]], l + 1)

Exit ==
  LET s == [st EXCEPT !.it = E.it, !.t = E.t[1]]
      ok == /\ Pre("run fails: " \o E.outcome, E.outcome = "ok")
            /\ Pre("record outside an iteration", E.stray = 0)
            /\ Arrive(FALSE)
            /\ Chk("C12", "run stops before its last iteration", Stop(s))
  IN Goto(ok, st, l + 1)

Begin == Goto(TRUE, [sc |-> l, first |-> TRUE, t |-> 0, it |-> 0, lo |-> 0, hi |-> 0, nxt |-> <<0, 0, 0>>], l + 1)

Init == l = 1 /\ st = [sc |-> 1]
Step == \/ E.e = "scenario" /\ Begin
        \/ E.e = "it" /\ Iter
        \/ E.e = "exit" /\ Exit
Spec == Init /\ [][RunNext(Step)]_vars
=============================================================================
