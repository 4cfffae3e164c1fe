----------------------------- MODULE ForceTrace -----------------------------
(* C25.  A test particle is carried along a closed walk through the external *)
(* field.  The state holds the energy it had at the start and the work the   *)
(* field has done since; the field is conservative with the documented       *)
(* potential if at every stop the potential is that energy minus the work.   *)
(* A jump (a step across a documented discontinuity) restarts the account.   *)
(* Coordinates are integers in units of 1/100, energies in a unit of the     *)
(* scenario (1e7 units: the largest energy met).                             *)
EXTENDS TraceBase

Tol == 1500   \* 1.5e-4 of the largest energy met

Scenario ==
  /\ E.e = "scenario"
  /\ l' = l + 1
  /\ st' = [sc |-> l, i |-> 0, phi |-> 0, home |-> 0, work |-> 0]

RECURSIVE Sq(_, _)
Sq(k, d) == IF d = 0 THEN 0 ELSE k[d] * k[d] + Sq(k, d - 1)
Outside(k, ax) == Abs(k[ax]) - Sc.box[ax] \div 2         \* distance beyond the wall
Height(k) == IF Sc.dim > 1 THEN k[2] ELSE k[1]
R2(k) == Sq(k, Sc.dim)
Near(a, b) == Abs(a - b) <= 2 + Abs(b) \div 100000
\* the value of one term, in its own unit, where it is an integer
TermOK(t, ax, own, k) ==
  CASE t = "gravity" -> own = Sc.g * Height(k)
    [] t = "walls"   -> Near(own, IF Outside(k, ax) <= 0 THEN 0 ELSE Pow(Outside(k, ax), Sc.n))
    [] t = "poison"  -> own = Sc.poison
    [] t = "spherical wall" -> IF R2(k) <= Sc.R * Sc.R THEN own = 0 ELSE own >= 0
    [] t = "support" -> (Sc.gam2 /\ Sc.profile = "parabolic" /\ R2(k) < Sc.R * Sc.R) => Near(own, R2(k) - Sc.R * Sc.R)
    [] OTHER -> TRUE
Walls == {i \in DOMAIN Sc.terms : Sc.terms[i] = "walls"}
Quiet(k) ==   \* only walls, and the particle is inside all of them
  /\ \A i \in DOMAIN Sc.terms : Sc.terms[i] \in {"walls", "spherical wall", "poison"}
  /\ \A i \in Walls : Outside(k, Sc.axes[i]) <= 0
  /\ (\E i \in DOMAIN Sc.terms : Sc.terms[i] = "spherical wall") => R2(k) <= Sc.R * Sc.R
Central == Sc.terms # <<>> /\ \A i \in DOMAIN Sc.terms : Sc.terms[i] \in {"spherical wall", "poison", "support", "walls"}
NAcc == Cardinality({i \in DOMAIN Sc.terms : Sc.terms[i] # "poison"})

Move ==
  /\ E.e = "move"
  /\ Goto(
      /\ Chk("C25", "one potential and one acceleration for each named term", Sc.npot = Len(Sc.terms) /\ Sc.nacc = NAcc)
      /\ Chk("C25", "finite", E.fin)
      /\ Chk("C25", "the total potential is the sum of the named terms", Abs(E.phi - SumOf(E.tp)) <= 10)
      /\ Chk("C25", "the total acceleration is the sum of the named terms", \A d \in 1..Sc.dim : Abs(E.a[d] - E.s[d]) <= 2)
      /\ Chk("C25", "each term has its documented value",
             \A i \in DOMAIN E.tp : Abs(E.tp[i] - E.tr[i]) <= 100 /\ TermOK(Sc.terms[i], Sc.axes[i], E.own[i], E.k))
      /\ Chk("C25", "no force inside the walls", Quiet(E.k) => E.still)
      /\ Chk("C25", "walls and support push inward", Central => E.rad <= 0)
      /\ Chk("C25", "the potential falls by the work done", E.jump \/ Abs(E.phi - (st.phi - (st.work + E.work))) <= Tol)
      /\ Chk("C25", "back home with the same potential", st.i + 1 = Sc.steps => Abs(E.phi - st.home) <= 1),
      [st EXCEPT !.i = @ + 1, !.home = IF st.i = 0 THEN E.phi ELSE @,
                 !.phi = IF E.jump THEN E.phi ELSE @, !.work = IF E.jump THEN 0 ELSE @ + E.work], l + 1)

Drag ==
  /\ E.e = "drag"
  /\ Goto(
      Chk("C25", "drag opposes the velocity",
          \A d \in 1..Sc.dim : E.a[d] = -(Sc.beta * 100 + Sc.gamma * R2(E.v)) * E.v[d]),
      [st EXCEPT !.i = @ + 1], l + 1)

Stopped == E.e = "stopped" /\ Goto(Chk("C25", "evaluation ends normally", FALSE), st, l + 1)
End == E.e = "end" /\ Goto(Pre("whole walk seen", st.i = Sc.steps), st, l + 1)

Init == l = 1 /\ st = [sc |-> 1]
Step == Scenario \/ Move \/ Drag \/ Stopped \/ End
Spec == Init /\ [][RunNext(Step)]_vars
=============================================================================
