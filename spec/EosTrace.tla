------------------------------ MODULE EosTrace ------------------------------
(* C26.  A particle of fluid is compressed and expanded along its adiabat    *)
(* and brought back.  The state holds the internal energy and the pressure   *)
(* it must have: the first grows by the work -P dV = P/rho^2 drho, the       *)
(* second by c^2 drho.  Units: 1e-7 of the largest value on the walk.        *)
EXTENDS TraceBase

Scenario ==
  /\ E.e = "scenario"
  /\ l' = l + 1
  /\ st' = [sc |-> l, i |-> 0, u |-> 0, p |-> 0, home |-> <<0, 0, 0>>]

Tol == 200
Compress ==
  /\ E.e = "compress"
  /\ Goto(
      /\ Chk("C26", "finite and positive", E.fin /\ E.pos)
      /\ Chk("C26", "set-up reproduces the pressure it was given", st.i = 0 => Abs(Sc.init - 1000000) <= 1)
      /\ Chk("C26", "set-up leaves the energy of the adiabat", st.i = 0 => Abs(Sc.einit - 1000000) <= 1)
      /\ Chk("C26", "internal energy grows by the work of compression", st.i = 0 \/ Abs(E.v[2] - (st.u + E.pdv)) <= Tol)
      /\ Chk("C26", "sound speed squared is the slope of the pressure", st.i = 0 \/ Abs(E.v[1] - (st.p + E.dp)) <= Tol)
      /\ Chk("C26", "documented values", \A k \in 1..3 : Abs(E.v[k] - E.r[k]) <= 10 + E.r[k] \div 500000)
      /\ Chk("C26", "back home in the same state", st.i + 1 = Sc.steps => E.lr = 0 /\ \A k \in 1..3 : Abs(E.v[k] - st.home[k]) <= 1),
      [st EXCEPT !.i = @ + 1, !.home = IF st.i = 0 THEN E.v ELSE @,
                 !.u = IF st.i = 0 THEN E.v[2] ELSE @ + E.pdv, !.p = IF st.i = 0 THEN E.v[1] ELSE @ + E.dp], l + 1)

Law ==   \* ideal fluid: density and energy in tenths, pressure and c^2 in thousandths
  /\ E.e = "law"
  /\ Goto(
      /\ Chk("C26", "the pressure of an ideal fluid", E.P = (Sc.g10 - 10) * E.r * E.u)
      /\ Chk("C26", "the sound speed of an ideal fluid", E.c2 = Sc.g10 * (Sc.g10 - 10) * E.u)
      /\ Chk("C26", "evaluation leaves density and energy alone", E.kept),
      [st EXCEPT !.i = @ + 1], l + 1)
End == E.e = "end" /\ Goto(Pre("whole walk seen", st.i = Sc.steps), st, l + 1)

Init == l = 1 /\ st = [sc |-> 1]
Step == Scenario \/ Compress \/ Law \/ End
Spec == Init /\ [][RunNext(Step)]_vars
=============================================================================
