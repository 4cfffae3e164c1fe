------------------------------ MODULE InitTrace ------------------------------
(* C28.  A file of initial data is read particle by particle; the state      *)
(* gathers what was there: mass by region, blast energy, the column of fluid *)
(* above.  Rational numbers are <<mantissa, exponent>> with seven digits;    *)
(* lengths in 1/1000000 of the unit of the scenario, shares in 1e-9.         *)
EXTENDS TraceBase

N(m, e) == <<m, e>>
Zero == <<0, 0>>
Neg(x) == <<-x[1], x[2]>>
\* equal to about six digits
Same(a, b) ==
  \/ a[2] = b[2] /\ Abs(a[1] - b[1]) <= 3
  \/ a[2] = b[2] + 1 /\ Abs(10 * a[1] - b[1]) <= 30 /\ Abs(a[1]) < 1000003
  \/ b[2] = a[2] + 1 /\ Abs(10 * b[1] - a[1]) <= 30 /\ Abs(b[1]) < 1000003

---------------------------------------------------------------------------
(* the set-ups *)
\* Toro's shock tubes: density, pressure and velocity of the middle and of the sides
Sod(t, mid) ==
  CASE t = 1 -> IF mid THEN <<N(1000000, -6), N(1000000, -6), Zero>> ELSE <<N(1250000, -7), N(1000000, -7), Zero>>
    [] t = 2 -> IF mid THEN <<N(1000000, -6), N(4000000, -7), N(-2000000, -6)>> ELSE <<N(1000000, -6), N(4000000, -7), N(2000000, -6)>>
    [] t = 3 -> IF mid THEN <<N(1000000, -6), N(1000000, -3), Zero>> ELSE <<N(1000000, -6), N(1000000, -8), Zero>>
    [] t = 4 -> IF mid THEN <<N(1000000, -6), N(1000000, -8), Zero>> ELSE <<N(1000000, -6), N(1000000, -4), Zero>>
    [] t = 5 -> IF mid THEN <<N(5999240, -6), N(4608940, -4), N(1959750, -5)>> ELSE <<N(5992420, -6), N(4609500, -5), N(-6196330, -6)>>
    [] t = 6 -> IF mid THEN <<N(1000000, -6), N(1000000, -12), N(1000000, -6)>> ELSE <<N(1000000, -6), N(1000000, -12), N(-1000000, -6)>>
Third == 166667
\* the possible regions of a particle: 1 the middle, bottom or only one, 2 the other
Regions ==
  CASE Sc.gen = "sodtube" ->
         (IF E.x[1] >= -Third - 2 /\ E.x[1] <= Third + 2 THEN {1} ELSE {}) \cup (IF E.x[1] <= -Third + 2 \/ E.x[1] >= Third - 2 THEN {2} ELSE {})
    [] Sc.gen = "KH" -> {1, 2}
    [] Sc.gen = "RT" -> (IF E.x[2] <= 2 THEN {1} ELSE {}) \cup (IF E.x[2] >= -2 THEN {2} ELSE {})
    [] OTHER -> {1}
\* density, pressure and velocity along x
State(r) ==
  CASE Sc.gen = "sodtube" -> Sod(Sc.test, r = 1)
    [] Sc.gen = "KH" -> <<Sc.rho[r], Sc.P, IF r = 1 THEN Sc.flow ELSE Neg(Sc.flow)>>
    [] Sc.gen \in {"RT", "fluid"} -> <<Sc.rho[r], E.P, Zero>>
    [] Sc.gen = "noh" -> <<Sc.rho[1], Sc.P, E.v[1]>>
    [] Sc.gen = "wtunnel" -> <<Sc.rho[1], Sc.P, Neg(Sc.flow)>>
    [] Sc.gen = "implosion" -> <<Sc.rho[1], IF E.r < 800000 THEN Sc.P ELSE E.P, Zero>>
    [] Sc.gen = "sedov" -> <<IF Sc.uniform THEN Sc.rho[1] ELSE E.rho, IF Sc.uniform /\ ~Sc.pert /\ E.r > Sc.blast + 2 THEN Sc.P ELSE E.P, Zero>>
    [] Sc.gen = "collapse" -> <<Sc.rho[1], Sc.P, Zero>>
Is(r) ==
  LET s == State(r) IN Same(E.rho, s[1]) /\ Same(E.P, s[2]) /\ Same(E.v[1], s[3])
Fits == {r \in Regions : Is(r)}

---------------------------------------------------------------------------
Scenario ==
  /\ E.e = "scenario"
  /\ Goto(
      /\ Chk("C28", "the generator succeeds", E.ok)
      /\ Chk("C28", "one step, the initial one, of the right dimension", E.ok => E.steps = 1 /\ E.step = 0 /\ E.filedim = E.dim),
      [sc |-> l, n |-> 0, mass |-> <<0, 0>>, blast |-> 0, in |-> 0, out |-> 100000000,
       y |-> 1000000000, p |-> 0], l + 1)

Add(a, b) == IF Abs(a) > 1010000000 THEN a ELSE a + b       \* far too much already
MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b
Particle ==
  /\ E.e = "part"
  /\ \E r \in {TLCEval(IF Fits = {} THEN 0 ELSE CHOOSE q \in Fits : TRUE)} :
     Goto(
      /\ Chk("C28", "finite, positive", E.fin)
      /\ Chk("C28", "inside the domain", \A d \in 1..Sc.dim : Sc.half[d] = 0 \/ (E.x[d] >= Sc.mid[d] - Sc.half[d] - 2 /\ E.x[d] <= Sc.mid[d] + Sc.half[d] + 2))
      /\ Chk("C28", "inside the sphere", Sc.ball => E.r <= 1000002)
      /\ Chk("C28", "no extent in dimensions that are not there", \A d \in Sc.dim + 1..3 : E.x[d] = 0 /\ E.v[d] = Zero)
      /\ Chk("C28", "density, pressure and velocity of its region", r > 0)
      /\ Chk("C28", "pressure, density and energy on the equation of state", Abs(E.eos - 10000000) <= 10)
      /\ Chk("C28", "smoothing length from mass and density", Abs(E.h - 10000000) <= 10)
      /\ Chk("C28", "mass of the particles around makes its density", E.dens = -1 \/ Abs(E.dens - 10000) <= Sc.tol)
      /\ Chk("C28", "velocities across",
             CASE Sc.gen = "noh" -> (Abs(E.vr + 10000000) <= 10 \/ (E.r = 0 /\ E.vr = 0)) /\ E.vt <= 10
               [] Sc.gen \in {"KH", "RT"} -> Abs(E.vy) <= 10 /\ E.v[3] = Zero
               [] OTHER -> E.v[2] = Zero /\ E.v[3] = Zero)
      /\ Chk("C28", "blast energy inside the radius only", Sc.gen = "sedov" /\ ~Sc.pert => IF E.r > Sc.blast + 2 THEN Abs(E.b) <= 20 ELSE E.b >= -20)
      /\ Chk("C28", "density falls as the profile does", ~Sc.uniform /\ ~Sc.pert =>
             Abs(E.rr - (1000000 - (E.r \div 1000) * (E.r \div 1000))) <= 2500)
      /\ Chk("C28", "energy of the implosion rises linearly", Sc.gen = "implosion" /\ E.r >= 800002 /\ E.r <= 1000002 =>
             Abs(E.u - (100 + (9999 * (E.r - 800000)) \div 2000)) <= 12)
      /\ Chk("C28", "at rest under gravity: the weight of the column above", Sc.gen \in {"RT", "fluid"} =>
             /\ E.x[2] <= st.y
             /\ Abs(E.p - (IF st.n = 0 THEN E.surf ELSE st.p + E.col)) <= 20)
      /\ Chk("C28", "equal masses", Sc.equal => Abs(E.m - Sc.m1) <= 1),
      [st EXCEPT !.n = @ + 1, !.mass[MaxOf(r, 1)] = Add(@, E.m),
                 !.blast = IF Sc.gen = "sedov" THEN Add(@, E.b) ELSE 0,
                 !.in = IF Sc.gen = "KH" /\ r = 1 THEN MaxOf(@, Abs(E.x[2])) ELSE @,
                 !.out = IF Sc.gen = "KH" /\ r = 2 THEN MinOf(@, Abs(E.x[2])) ELSE @,
                 !.y = IF Sc.gen \in {"RT", "fluid"} THEN E.x[2] ELSE @,
                 !.p = IF Sc.gen \in {"RT", "fluid"} THEN E.p ELSE @], l + 1)

End ==
  /\ E.e = "end"
  /\ Goto(
      /\ Pre("all seen", st.n = Sc.n)
      /\ Chk("C28", "ids are distinct", E.ids = st.n)
      /\ Chk("C28", "particles are where the resolution says", st.n >= Sc.least /\ st.n <= Sc.most)
      /\ Chk("C28", "no two particles in one place", E.near > 100000)
      \* rows one apart across a periodic boundary, up to the mismatch that is allowed
      /\ Chk("C28", "a periodic domain is not the first about the wanted size that fits the lattices", \A k \in DOMAIN E.fits : E.fits[k][2] >= E.fits[k][1] - 2100 /\ E.fits[k][2] <= E.fits[k][3] + 20)
      /\ Chk("C28", "lattice goes on across a periodic boundary", \A k \in DOMAIN E.gaps : E.gaps[k] >= 750 /\ E.gaps[k] <= 1250)
      /\ Chk("C28", "mass of the volume", \A r \in 1..2 : Sc.share[r] = -1 \/ Abs(st.mass[r] - Sc.share[r]) <= st.n + 5)
      /\ Chk("C28", "energy of the blast", Sc.gen = "sedov" => Abs(st.blast - 100000000) <= 1000)
      /\ Chk("C28", "the layers do not mix", Sc.gen = "KH" => st.in < st.out),
      st, l + 1)

Init == l = 1 /\ st = [sc |-> 1]
Step == Scenario \/ Particle \/ End
Spec == Init /\ [][RunNext(Step)]_vars
=============================================================================
