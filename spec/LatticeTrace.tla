---------------------------- MODULE LatticeTrace ----------------------------
(* C21.  The arrays of an initial-data generator are filled block by block.  *)
(* The state is the next free slot.  A block holds exactly the sites of the  *)
(* lattice inside the domain; a site is <<X, Y, Z>> with x = X/2, and        *)
(* y = Y/3, z = Z rows and layers of the lattice; lengths in 1/1000 of the   *)
(* separation.                                                               *)
EXTENDS TraceBase

Scenario ==
  /\ E.e = "scenario"
  /\ l' = l + 1
  /\ st' = [sc |-> l, next |-> IF "next" \in DOMAIN E THEN E.next ELSE 0, n |-> 0]

---------------------------------------------------------------------------
(* the lattices *)
\* is <<X, Y, Z>> a site of lattice t in d dimensions
Site(t, d, p) ==
  LET X == p[1]  Y == p[2]  Z == p[3]
      s == IF t = 1 THEN Z % 2 ELSE Z % 3       \* hexagonal: AB, cubic: ABC
      r == (Y + s) \div 3                        \* the row of the layer
  IN CASE t = 0 -> X % 2 = 0 /\ Y % 3 = 0
       [] t \in {1, 2} -> (Y + s) % 3 = 0 /\ (X - (r - s)) % 2 = 0
\* its coordinates
PY(t, Y) == IF t = 0 THEN (Y * 1000) \div 3 ELSE (Y * 288675) \div 1000
PZ(t, Z) == IF t = 0 THEN Z * 1000 ELSE (Z * 816497) \div 1000
Pos(t, p) == <<p[1] * 500, PY(t, p[2]), PZ(t, p[3])>>
Sqr(x) == x * x
Dist2(t, p, q) == LET a == Pos(t, p) b == Pos(t, q) IN Sqr(a[1] - b[1]) + Sqr(a[2] - b[2]) + Sqr(a[3] - b[3])

\* every lattice is regular: a site in the middle has no other site nearer than one
\* separation, and 6 (cubic) or 12 (close packed) at one separation
Block == (0..10) \X (0..15) \X (0..6)
Around(t, p) == {q \in Block : q # p /\ Site(t, 3, q) /\ Dist2(t, p, q) < 1100000}
ASSUME Regular ==
  \A t \in 0..2 : \A p \in (4..6) \X (6..9) \X (2..4) :
    Site(t, 3, p) =>
      /\ \A q \in Around(t, p) : Dist2(t, p, q) >= 990000
      /\ Cardinality(Around(t, p)) = IF t = 0 THEN 6 ELSE 12

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
InDomain(p) ==
  LET c == Pos(Sc.type, p)
      r == Min(SeqRange(Sc.L))
  IN /\ \A d \in 1..Sc.dim : c[d] >= 0 /\ c[d] < Sc.L[d]
     /\ Sc.dom = 1 => 4 * SumOf([d \in 1..Sc.dim |-> Sqr((2 * c[d] - Sc.L[d]) \div 4)]) < Sqr(r \div 2)
Sites ==
  {p \in (0..(Sc.L[1] \div 500)) \X (0..(IF Sc.dim > 1 THEN (3 * Sc.L[2]) \div 866 + 1 ELSE 0))
           \X (0..(IF Sc.dim > 2 THEN Sc.L[3] \div 816 + 1 ELSE 0)) :
     Site(Sc.type, Sc.dim, p) /\ InDomain(p)}

\* spherical shells: 10 k^2 + 2 points on shell k
RECURSIVE Shells(_)
Shells(k) == IF k = 0 THEN 1 ELSE Shells(k - 1) + 10 * k * k + 2

Generate ==
  /\ E.e = "generate"
  /\ Goto(
      /\ Chk("C21", "counting announces the same number at any place", Sc.announced = Sc.again)
      /\ Chk("C21", "as many generated as announced", E.got = Sc.announced)
      /\ Chk("C21", "exactly the announced slots are filled",
             E.at = st.next /\ (IF E.got = 0 THEN E.changed = 0 ELSE E.first = st.next /\ E.last = st.next + E.got - 1 /\ E.changed = E.got))
      /\ Chk("C21", "every position inside the domain", E.inside)
      /\ Chk("C21", "no position twice", NoDup(E.pts))
      /\ Chk("C21", "every site of the domain and no other point", Sc.type <= 2 => SeqRange(E.pts) = Sites)
      /\ Chk("C21", "whole shells, up to the edge of the sphere",
             Sc.type = 3 /\ Sc.dom = 1 => \E k \in (Sc.shells - 1)..Sc.shells : Len(E.pts) = Shells(k))
      /\ Chk("C21", "as many random points as the box of the sphere has sites", Sc.type = 4 => Abs(Len(E.pts) - Sc.rnd) <= 1),
      [st EXCEPT !.next = @ + E.got, !.n = @ + 1], l + 1)
Stopped == E.e = "stopped" /\ Goto(Chk("C21", "generation ends normally", FALSE), st, l + 1)

Init == l = 1 /\ st = [sc |-> 1]
Step == Scenario \/ Generate \/ Stopped
Spec == Init /\ [][RunNext(Step)]_vars
=============================================================================
