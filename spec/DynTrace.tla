------------------------------ MODULE DynTrace ------------------------------
(* Particle dynamics of a whole run of the driver.  One "rec" line per       *)
(* iteration lists who holds which particle; the lines after it give, for    *)
(* every particle, its change since the previous record and the products the *)
(* scheme adds up, as integers in a unit chosen so that one unit is about    *)
(* 1e-7 of the largest of them.                                              *)
(*   C13  leapfrog: the changes are the products; right-hand sides are the   *)
(*        sums over all pairs within support of the current state            *)
(*   C18  the hydrodynamic sums over all particles vanish                    *)
(*   C19  the scalar records are sums over the particles of that iteration   *)
(*   C10  gravity is the direct sum                                          *)
(*   C11  the limit of the step is that of the documented criteria           *)
EXTENDS TraceBase

Near(a, b, tol) == Abs(a - b) <= tol
\* s and t agree componentwise
Same(s, t, tol) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Near(s[i], t[i], tol)

\* every particle is on exactly one rank, with the identity and mass it started with
Rec ==
  LET ids == [i \in DOMAIN E.p |-> E.p[i].id]
      att == {<<E.p[i].id, E.p[i].type, E.p[i].m>> : i \in DOMAIN E.p}
      ok  == /\ Chk("C13", "a particle is lost, duplicated or unknown", NoDup(ids) /\ Len(ids) = Sc.n)
             /\ Chk("C13", "a particle changed its type or mass", att = st.att \/ st.att = {})
             /\ Chk("C13", "records out of order", E.it = st.it + 1)
  IN Goto(ok, [st EXCEPT !.it = E.it, !.att = att, !.seen = {}], l + 1)

\* kick - drift - kick
Move ==
  LET ok == /\ Pre("particle moved twice in one iteration", E.id \notin st.seen)
            /\ Chk("C13", "half-step velocity is not old velocity plus dt/2 times old acceleration", Same(E.dvh, E.k0, E.tol))
            /\ Chk("C13", "displacement is not dt times half-step velocity", Same(E.dr, E.drift, E.tol))
            /\ Chk("C13", "velocity is not half-step velocity plus dt/2 times new acceleration", Same(E.dv, E.k1, E.tol))
            /\ Chk("C13", "energy is not advanced by dt/2 times old and new rates", Near(E.de, E.j0 + E.j1, E.tol))
  IN Goto(ok, [st EXCEPT !.seen = @ \cup {E.id}], l + 1)

\* a quantity is the sum of its terms
Sum(q) == Near(SumOf(q.terms), q.val, q.tol)
Rhs ==
  LET ok == /\ Chk("C13", "density is not the kernel sum over all particles", Sum(E.rho))
            /\ Chk("C13", "pressure or sound speed does not follow from density and energy", Same(E.eos, E.eosx, E.tol))
            /\ Chk("C13", "internal energy is not total energy less kinetic and potential", Same(E.ie, E.iex, E.tol))
            /\ Chk("C13", "viscosity parameter does not follow from divergence and shear", Sum(E.al))
            /\ Chk("C13", "acceleration is not the sum over all pairs and the external force", \A d \in DOMAIN E.acc : Sum(E.acc[d]))
            /\ Chk("C13", "energy rate is not the sum over all pairs", Sum(E.rate))
            /\ Chk("C13", "smoothing length", Same(E.h, E.hx, E.tol))
            /\ Chk("C19", "number of neighbours of a particle", E.nb = E.nbx)
            /\ Chk("C13", "signal speed is not the largest over all pairs", Same(E.vs, E.vsx, E.tol))
  IN Goto(ok, st, l + 1)

Grav ==
  LET ok == /\ Chk("C10", "gravitational acceleration is not the direct sum", \A d \in DOMAIN E.g : Sum(E.g[d]))
            /\ Chk("C10", "gravitational potential is not the direct sum", Sum(E.pot))
  IN Goto(ok, st, l + 1)

\* the same run on another number of ranks
Twin ==
  LET ok == Chk("C13", "trajectory depends on the number of ranks", \A i \in DOMAIN E.diff : Near(E.diff[i], 0, E.tol))
  IN Goto(ok, st, l + 1)

Cons ==
  LET ok == /\ Chk("C18", "hydrodynamic forces do not add up to zero", \A d \in DOMAIN E.mom : Near(SumOf(E.mom[d]), 0, E.tol))
            /\ Chk("C18", "hydrodynamic forces exert a torque", \A d \in DOMAIN E.ang : Near(SumOf(E.ang[d]), 0, E.tol))
            /\ Chk("C18", "energy is not conserved", Near(SumOf(E.en), 0, E.tol))
  IN Goto(ok, st, l + 1)

\* a scalar record: every named column is the sum of its terms
Tot ==
  LET ok == /\ Chk("C19", "record without its iteration", E.it = st.it)
            /\ Chk("C19", "columns do not follow the header", E.cols = Sc.cols)
            /\ \A i \in DOMAIN E.q : Chk("C19", "total " \o E.q[i].name, Sum(E.q[i]))
  IN Goto(ok, st, l + 1)

Limit ==
  LET ok == Chk("C11", "limit of the step", Same(E.lim, E.limx, E.tol))
  IN Goto(ok, st, l + 1)

End ==
  LET ok == /\ Pre("run fails: " \o E.outcome, E.outcome = "ok")
            /\ Chk("C13", "iterations missing", st.it = E.last)
  IN Goto(ok, st, l + 1)

\* the scheme itself leaves the range of the equation of state: nothing is required of the rest
Void == Goto(TRUE, st, l + 1)

Begin == Goto(TRUE, [sc |-> l, it |-> E.it0 - 1, att |-> {}, seen |-> {}], l + 1)

Init == l = 1 /\ st = [sc |-> 1]
Step == \/ E.e = "scenario" /\ Begin
        \/ E.e = "rec"   /\ Rec
        \/ E.e = "move"  /\ Move
        \/ E.e = "rhs"   /\ Rhs
        \/ E.e = "grav"  /\ Grav
        \/ E.e = "twin"  /\ Twin
        \/ E.e = "cons"  /\ Cons
        \/ E.e = "tot"   /\ Tot
        \/ E.e = "limit" /\ Limit
        \/ E.e = "void"  /\ Void
        \/ E.e = "end"   /\ End
Spec == Init /\ [][RunNext(Step)]_vars
=============================================================================
