---------------------------- MODULE KernelTrace ----------------------------
(* C24.  A kernel is observed shell by shell from the origin outwards       *)
(* (q = r/h in (0,1), M shells, W * h^D in units of 1e-5, for three          *)
(* smoothing lengths).  The state carries the mass accumulated so far and    *)
(* the value at the previous shell.                                          *)
EXTENDS TraceBase


Scenario ==
  /\ E.e = "scenario"
  /\ l' = l + 1
  /\ st' = [sc |-> l, i |-> 0, mass |-> <<0, 0, 0>>, prev |-> <<10000000, 10000000, 10000000>>, edges |-> 0]

\* the shell's share of the mass: W times the area of the sphere of radius q, up
\* to the constant in Mass1
Share(w, i) ==
  CASE Sc.dim = 1 -> w
    [] Sc.dim = 2 -> w * (2 * i - 1)
    [] Sc.dim = 3 -> LET n == (2 * i - 1) * (2 * i - 1) IN (w \div 1000) * n + ((w % 1000) * n) \div 1000
\* accumulated mass of a kernel with integral one (M = 100)
Mass1 == CASE Sc.dim = 1 -> 5000000 [] Sc.dim = 2 -> 318309886 [] Sc.dim = 3 -> 31830989

Signed == Sc.kernel = "super_gaussian"    \* negative lobe by construction
Shell ==
  /\ E.e = "shell"
  /\ Goto(
      /\ Pre("shells in order", E.i = st.i + 1 /\ E.i <= Sc.M)
      /\ Chk("C24", "values in range", \A k \in 1..3 : Abs(E.w[k]) <= 5000000 /\ Abs(E.g[k]) <= 500000000)
      /\ Chk("C24", "non-negative", Signed \/ \A k \in 1..3 : E.w[k] >= 0)
      /\ Chk("C24", "decreases with distance", Signed \/ \A k \in 1..3 : E.w[k] <= st.prev[k] + 1)
      /\ Chk("C24", "scales with the smoothing length",
             \A k \in 2..3 : Abs(E.w[k] - E.w[1]) <= 2 /\ Abs(E.g[k] - E.g[1]) <= 2 + Abs(E.g[1]) \div 50000)
      /\ Chk("C24", "gradient is the derivative of the kernel",
             \A k \in 1..3 : Abs(E.g[k] - E.dw[k]) <= 3 + Abs(E.dw[k]) \div 20000)
      /\ Chk("C24", "gradient along the separation", \A k \in 1..3 : E.per[k] <= 1)
      /\ Chk("C24", "gradient odd in the separation", \A k \in 1..3 : E.odd[k] <= 1),
      [st EXCEPT !.i = E.i, !.prev = E.w,
                 !.mass = TLCEval([k \in 1..3 |-> Min2(1000000000, @[k] + Share(E.w[k], E.i))])],
      l + 1)

Edge ==
  /\ E.e = "edge"
  /\ Goto(
      /\ Pre("all shells seen", st.i = Sc.M)
      /\ Chk("C24", "zero beyond the support", E.zero)
      /\ Chk("C24", "finite near the origin", E.fin)
      /\ Chk("C24", "no gradient at the origin", \A d \in 1..Sc.dim : E.g0[d] = 0)
      \* the kernel is smooth at the origin: its slope per separation tends to its curvature there
      /\ Chk("C24", "gradient close to the origin",
             \A k \in 1..Len(E.slope) : Abs(E.slope[k] - E.curv) <= 20 + Abs(E.curv) \div 50)
      /\ Chk("C24", "value close to the origin", \A k \in 1..Len(E.near) : Abs(E.near[k] - E.w0) <= 2 + E.w0 \div 10000)
      /\ Chk("C24", "no jump at the origin", Abs(E.w0 - E.w1) <= 2 /\ E.w0 >= E.first)
      /\ Chk("C24", "falls to zero at the edge of the support", Abs(E.wh) <= E.w0 \div (IF Signed THEN 200 ELSE 2000)),
      [st EXCEPT !.edges = @ + 1], l + 1)

Done ==
  /\ E.e = "sweepdone"
  /\ Goto(
      /\ Pre("complete sweep", st.i = Sc.M /\ st.edges = 3)
      /\ Chk("C24", "unit mass", \A k \in 1..3 : Abs(st.mass[k] - Mass1) <= Mass1 \div 2000),
      st, l + 1)

Init == l = 1 /\ st = [sc |-> 1]
Step == Scenario \/ Shell \/ Edge \/ Done
Spec == Init /\ [][RunNext(Step)]_vars
=============================================================================
