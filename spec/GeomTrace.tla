----------------------------- MODULE GeomTrace -----------------------------
(* C30.  Points, boxes and balls with integer coordinates: the predicates   *)
(* of the tree are the relations of elementary geometry, and a search by    *)
(* radius finds the particles it is asked for and no others, whatever the   *)
(* tree over them.  State: the particles the tree was last built over.      *)
EXTENDS TraceBase

Sq(x) == x * x
D2(a, b) == SumOf([i \in 1..Len(a) |-> Sq(a[i] - b[i])])
MaxOf2(a, b) == IF a > b THEN a ELSE b
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
\* the point of a box closest to p
Near(p, lo, hi) == [i \in 1..Len(p) |-> Clamp(p[i], lo[i], hi[i])]
Ball(p, q, r) == D2(p, q) <= Sq(r)
Overlap(lo, hi, lo2, hi2) == \A i \in 1..Len(lo) : MaxOf2(lo[i], lo2[i]) <= (IF hi[i] < hi2[i] THEN hi[i] ELSE hi2[i])
\* half-open cells in more than one dimension (they tile), closed intervals in one
InBox(p, lo, hi) == \A i \in 1..Len(p) : p[i] <= hi[i] /\ (p[i] > lo[i] \/ (Len(p) = 1 /\ p[i] = lo[i]))

Case(c) ==
  /\ Chk("C30", "squared distance", c.d2 = D2(c.p, c.q))
  /\ Chk("C30", "within a distance", c.wd2 = Ball(c.p, c.q, c.r1) /\ c.wd2s = c.wd2)
  /\ Chk("C30", "within the radius of one", c.win = Ball(c.p, c.q, c.r1))
  /\ Chk("C30", "within the larger radius", c.wsq = Ball(c.p, c.q, MaxOf2(c.r1, c.r2)) /\ c.wsqs = c.wsq)
  /\ Chk("C30", "inside a box", c.inbox = InBox(c.p, c.lo, c.hi))
  /\ Chk("C30", "boxes meet", c.bb = Overlap(c.lo, c.hi, c.lo2, c.hi2) /\ c.bbs = c.bb)
  /\ Chk("C30", "balls meet", c.ss = Ball(c.p, c.q, c.r1 + c.r2) /\ c.sss = c.ss)
  /\ Chk("C30", "ball meets box", c.sb = Ball(Near(c.p, c.lo, c.hi), c.p, c.r1))
  \* opening criterion: (r1 + r2) / distance below the angle (in eighths)
  /\ Chk("C30", "acceptance of a node", c.mac = (Sq(8 * (c.r1 + c.r2)) < Sq(c.ang) * D2(c.p, c.q)))
  \* the diagonal of the source box seen from the sink; a tie is not settled
  /\ LET a == 64 * D2(c.lo, c.hi) b == Sq(c.ang) * D2(c.p, c.q)
     IN Chk("C30", "acceptance of a box", a = b \/ c.bmac = (a < b))

Scenario == E.e = "scenario" /\ st' = [sc |-> l, ps |-> << >>] /\ l' = l + 1
Cases == E.e = "cases" /\ Goto(\A i \in 1..Len(E.c) : Case(E.c[i]), st, l + 1)
Tree  == E.e = "tree" /\ st' = [st EXCEPT !.ps = E.ps] /\ l' = l + 1
\* up to rounding: a particle exactly on the rim may be found or not
Find  ==
  /\ E.e = "find"
  /\ \E d \in {TLCEval([i \in 1..Len(st.ps) |-> D2(st.ps[i].x, E.c) - Sq(MaxOf2(E.rad, st.ps[i].h))])} :
     \E in \in {{st.ps[i].id : i \in {j \in 1..Len(st.ps) : d[j] < 0}}} :
     \E on \in {{st.ps[i].id : i \in {j \in 1..Len(st.ps) : d[j] = 0}}} :
     Goto(/\ Chk("C30", "a particle is found once", Cardinality(SeqRange(E.ids)) = Len(E.ids))
          /\ Chk("C30", "every particle in reach is found", in \subseteq SeqRange(E.ids))
          /\ Chk("C30", "only particles in reach are found", SeqRange(E.ids) \subseteq (in \cup on)),
          st, l + 1)
Finish == E.e = "finish" /\ Goto(Chk("C30", "the run comes to an end", E.ok), st, l + 1)

Init == l = 1 /\ st = [sc |-> 1, ps |-> << >>]
Step == Scenario \/ Cases \/ Tree \/ Find \/ Finish
Next == RunNext(Step)
Spec == Init /\ [][Next]_vars
=============================================================================
