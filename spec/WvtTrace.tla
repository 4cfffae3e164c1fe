------------------------------ MODULE WvtTrace ------------------------------
(* C29.  A run of the relaxation driver.  The state: the iteration, whether  *)
(* the run is over (converged, or the last cool-down iteration), and who the *)
(* particles are.  Every iteration displaces the particles by a fraction of  *)
(* the pseudo-acceleration of the iteration before, folds them back into the *)
(* sphere, sets smoothing lengths, densities and pseudo-accelerations anew   *)
(* and decides about convergence.                                            *)
(* Units: lengths as 2^-20 of the radius of the boundary; sums about 1e-7 of *)
(* the largest term.                                                         *)
EXTENDS TraceBase

R == 1048576
Near(a, b, tol) == Abs(a - b) <= tol
Same(s, t, tol) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Near(s[i], t[i], tol)
Sum(q) == Near(SumOf(q.terms), q.val, q.tol)
C(name, cond) == Chk("C29", name, cond)
Count(S) == Cardinality(S)

Iter ==
  Goto(/\ C("an iteration after the end of the run", ~st.done)
       /\ C("an iteration left out", E.it = st.it + 1)
       /\ C("a rank left out of an iteration", E.ranks = [r \in 1..Sc.ranks |-> r - 1]),
       [st EXCEPT !.it = E.it], l + 1)

\* the snapshot of this iteration: every particle once, written by all ranks
Rec ==
  Goto(/\ C("a particle is lost, duplicated or unknown", E.ids = [i \in 1..Sc.n |-> i] /\ E.n = Sc.n)
       /\ C("a rank did not take part in the snapshot", E.w = Sc.ranks)
       /\ C("a particle changed its type", E.t = E.t0),
       st, l + 1)
Keep == Goto(C("mass, velocity or energy of a particle changed", Same(E.got, E.want, 4)), st, l + 1)
None == Goto(C("no snapshot of an iteration", FALSE), st, l + 1)

\* the fraction of this iteration, in 1e-6 of wvt_mu
Mu ==
  LET cold == LET v == 100000 - (100000 * (E.it - Sc.fin)) \div Sc.cool IN IF v < 0 THEN 0 ELSE v
  IN Goto(Pre("fraction", Near(E.mu, IF E.it <= Sc.fin THEN 1000000 ELSE cold, 1)), st, l + 1)

\* candidates: the full step and its halves.  The first that does not pass 1.01 radii; folded back when it passes the radius
Tie == 20
Limit(c) == 100 * c.rad - 101 * R
Folds(c, tol) == \/ c.rad >= R - Tie /\ Same(c.got, c.mir, tol)
                 \/ c.rad <= R + Tie /\ Same(c.got, c.raw, tol)
Disp ==
  LET ok(k) == /\ (k = Len(E.c) \/ Limit(E.c[k]) <= 100 * Tie)
               /\ \A j \in 1..(k - 1) : Limit(E.c[j]) >= -100 * Tie
  IN Goto(/\ C("displacement is not the fraction of the pseudo-acceleration, halved and folded back at the boundary",
               \E k \in DOMAIN E.c : ok(k) /\ Folds(E.c[k], E.tol))
          /\ C("a particle leaves the sphere", E.r >= 0 /\ E.r <= R + Tie),
          st, l + 1)

\* most particles stand still: the share of those that would move on is below the point
Conv ==
  LET must  == Count({i \in DOMAIN E.d : E.d[i] > E.lim[i] + 4})
      may   == Count({i \in DOMAIN E.d : E.d[i] > E.lim[i] - 4})
      small(c) == 100000 * c < Sc.point * Sc.n
      asked == Sc.conv /\ E.it > Sc.it0 /\ E.it <= Sc.fin
      stop  == asked /\ small(must)
  IN Goto(C("convergence cannot be decided", must = may),
          [st EXCEPT !.done = stop \/ E.it = Sc.fin + Sc.cool], l + 1)

\* at the end density and smoothing length are those of the profile
State ==
  Goto(IF st.done
       THEN /\ C("final density is not that of the profile", Same(E.rf, E.rfx, E.tol))
            /\ C("final smoothing length is not that of the profile", Same(E.hf, E.hfx, E.tol))
       ELSE /\ C("smoothing length", Same(E.h, E.hx, E.tol))
            /\ C("volumes within the smoothing lengths do not add up to the wanted number of neighbours", Sum(E.vol))
            /\ C("density is not the kernel sum over all particles", \A i \in DOMAIN E.rho : Sum(E.rho[i])),
       st, l + 1)

Push ==
  Goto(/\ C("pseudo-acceleration is not the sum over neighbours and images", \A k \in DOMAIN E.acc : Sum(E.acc[k]))
       /\ C("number of neighbours", E.out \/ E.nb = E.nbx),
       st, l + 1)

\* the same run on another number of ranks, with another output interval
Twin ==
  LET due == SelectSeq([k \in 1..(st.it - Sc.it0 + 1) |-> Sc.it0 + k - 1], LAMBDA k : k = st.it \/ (E.every > 0 /\ k % E.every = 0))
  IN Goto(/\ C("snapshots at the wanted iterations and at the end", E.its = due)
          /\ C("the end depends on the number of ranks", E.exits = <<st.it + 1>>)
          /\ C("the result depends on the number of ranks", \A i \in DOMAIN E.diff : E.diff[i] <= E.tol),
          st, l + 1)

End ==
  Goto(/\ Pre("run fails: " \o E.outcome, E.outcome = "ok")
       /\ C("the run stops before its end", st.done)
       /\ C("all ranks stop after the same iteration", E.exits = <<st.it + 1>> /\ E.nr = Sc.ranks),
       st, l + 1)

Begin == Goto(TRUE, [sc |-> l, it |-> E.it0 - 1, done |-> FALSE], l + 1)

Init == l = 1 /\ st = [sc |-> 1]
Step == \/ E.e = "scenario" /\ Begin
        \/ E.e = "iter"  /\ Iter
        \/ E.e = "rec"   /\ Rec
        \/ E.e = "keep"  /\ Keep
        \/ E.e = "none"  /\ None
        \/ E.e = "mu"    /\ Mu
        \/ E.e = "disp"  /\ Disp
        \/ E.e = "conv"  /\ Conv
        \/ E.e = "state" /\ State
        \/ E.e = "push"  /\ Push
        \/ E.e = "twin"  /\ Twin
        \/ E.e = "end"   /\ End
Spec == Init /\ [][RunNext(Step)]_vars
=============================================================================
