---------------------------- MODULE ProfileTrace ----------------------------
(* C27.  A probe moves in and out through a sphere with one of the radial    *)
(* density profiles.  The state holds the mass inside and the density where  *)
(* it is: between two stops the mass grows by the density times the surface, *)
(* the density by the slope.  Units: 1e-7 of the largest value.              *)
EXTENDS TraceBase

Tol == 60
Scenario ==
  /\ E.e = "scenario"
  /\ Goto(
      /\ Chk("C27", "a built-in profile has unit mass", E.unit => Abs(E.mass - 10000000) <= Tol)
      /\ Chk("C27", "nothing beyond the end of a table", E.out = 0),
      [sc |-> l, i |-> 0, r |-> 0, m |-> 0, rho |-> 0], l + 1)

Shell ==
  /\ E.e = "shell"
  /\ Goto(
      /\ Chk("C27", "finite and not negative, falling outwards", E.fin /\ E.pos)
      /\ Chk("C27", "no mass inside the centre", E.r = 0 => Abs(E.v[2]) <= 10)
      /\ Chk("C27", "mass inside grows by the density times the surface", st.i = 0 \/ Abs(E.v[2] - (st.m + E.dm)) <= Tol)
      /\ Chk("C27", "density changes by its slope", st.i = 0 \/ E.rim \/ Abs(E.v[1] - (st.rho + E.dr)) <= Tol)
      /\ Chk("C27", "a probe farther out sees no less mass and no more density",
             st.i = 0 \/ (E.r >= st.r => E.v[2] >= st.m - 10 /\ E.v[1] <= st.rho + 10))
      /\ Chk("C27", "documented values", \A k \in 1..3 : Abs(E.v[k] - E.x[k]) <= Tol),
      [st EXCEPT !.i = @ + 1, !.r = E.r, !.m = E.v[2], !.rho = E.v[1]], l + 1)
\* a look into a coarse table: its rows, between them the cubic through the four nearest rows, nothing outside
Look ==
  /\ E.e = "look"
  /\ Goto(
      /\ Chk("C27", "rows of the table", E.node => \A k \in 1..3 : Abs(E.v[k] - E.x[k]) <= 2)
      /\ Chk("C27", "nothing outside the table", ~E.in => E.v = <<0, 0, 0>>)
      /\ Chk("C27", "between the rows", \A k \in 1..3 : Abs(E.v[k] - E.x[k]) <= 2 + Abs(E.x[k]) \div 100000),
      [st EXCEPT !.i = @ + 1], l + 1)
End == E.e = "end" /\ Goto(Pre("whole walk seen", st.i = Sc.steps), st, l + 1)

Init == l = 1 /\ st = [sc |-> 1]
Step == Scenario \/ Shell \/ Look \/ End
Spec == Init /\ [][RunNext(Step)]_vars
=============================================================================
