----------------------------- MODULE BoundTrace -----------------------------
(* C17.  Periodic boundaries.  The state holds the particles of the system   *)
(* (token -> position, smoothing length, ...) as the ranks report them before *)
(* an iteration is set up; the set-up must leave exactly these, wrapped into *)
(* the box, plus their images; a loop over neighbours must then see every    *)
(* particle of the periodic system that interacts, at its nearest images.    *)
(* An entity is <<token, type, id, mass, h, attributes kept, x_1, ...>>.     *)
EXTENDS TraceBase

Dim == 1..Sc.dim
Xs(e) == [d \in Dim |-> e[6 + d]]
Half(d) == Sc.L[d] \div 2

Scenario ==
  /\ E.e = "scenario"
  /\ l' = l + 1
  /\ st' = [sc |-> l, it |-> 0, nb |-> 0, na |-> 0, nv |-> 0, P |-> <<>>, ent |-> <<>>, seen |-> {}]

\* the ranks report what they hold; images of the previous iteration may be among it
Before ==
  /\ E.e = "before"
  /\ Goto(
      /\ Pre("phases", st.nb < Sc.nr)
      /\ Chk("C17", "every particle has been visited", st.nb = 0 /\ st.it > 0 => st.nv = Sc.n),
      [st EXCEPT !.nb = @ + 1, !.na = 0, !.nv = 0, !.seen = {},
                 !.it = IF st.nb = 0 THEN @ + 1 ELSE @,
                 !.ent = <<>>,
                 !.P = (IF st.nb = 0 THEN <<>> ELSE @) \o SelectSeq(E.ent, LAMBDA e : e[2] = 0)], l + 1)

\* its place in the box
Wrap(e) ==
  [d \in Dim |-> IF Sc.per[d] = 0 THEN e[6 + d]
                 ELSE IF e[6 + d] > Half(d) THEN e[6 + d] - Sc.L[d]
                 ELSE IF e[6 + d] <= -Half(d) THEN e[6 + d] + Sc.L[d] ELSE e[6 + d]]
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
\* twice the halo: 2.5 largest smoothing lengths
Halo2 == 5 * Max({st.P[i][5] : i \in DOMAIN st.P})
Shifts == {s \in [Dim -> {-1, 0, 1}] : \A d \in Dim : Sc.per[d] = 0 => s[d] = 0}
Zero == [d \in Dim |-> 0]
\* an image across the upper face stands below the lower one
Reach(x, s, halo2) ==
  \A d \in Dim : /\ s[d] = -1 => 2 * x[d] + halo2 > Sc.L[d]
                 /\ s[d] = 1  => 2 * x[d] - halo2 <= -Sc.L[d]
Moved(x, s) == [d \in Dim |-> x[d] + s[d] * Sc.L[d]]

\* what the system must consist of: <<token, type, mass, h, position>>
System(halo2) ==
  UNION {LET e == st.P[i] x == Wrap(e)
         IN {<<e[1], IF s = Zero THEN 0 ELSE 1, e[4], e[5], Moved(x, s)>> : s \in {s \in Shifts : Reach(x, s, halo2)}}
         : i \in DOMAIN st.P}
Told(ents) == {<<ents[i][1], ents[i][2], ents[i][4], ents[i][5], Xs(ents[i])>> : i \in DOMAIN ents}
After ==
  /\ E.e = "after"
  /\ \E all \in {TLCEval(st.ent \o E.ent)} :
     Goto(
      /\ Pre("phases", st.nb = Sc.nr /\ st.na < Sc.nr)
      /\ Chk("C17", "attributes unchanged", \A i \in DOMAIN E.ent : E.ent[i][6] = 1)
      /\ Chk("C17", "a particle keeps its identity", \A i \in DOMAIN E.ent : E.ent[i][2] = 0 => E.ent[i][3] = E.ent[i][1])
      /\ Chk("C17", "every particle inside the box", \A i \in DOMAIN E.ent : E.ent[i][2] = 0 =>
             \A d \in Dim : Sc.per[d] = 1 => E.ent[i][6 + d] > -Half(d) /\ E.ent[i][6 + d] <= Half(d))
      /\ st.na + 1 = Sc.nr =>
           /\ Chk("C17", "the particles, wrapped, and exactly their images", \E h \in {TLCEval(Halo2)} : TLCEval(Told(all)) = TLCEval(System(h)))
           /\ Chk("C17", "nothing twice", Cardinality(Told(all)) = Len(all))
           /\ Chk("C17", "distinct ids", Cardinality({all[i][3] : i \in DOMAIN all}) = Len(all))
           /\ Chk("C17", "the reported number", E.ntot = Len(all))
      /\ Chk("C17", "the reported local number", E.nloc = Len(E.ent)),
      [st EXCEPT !.na = @ + 1, !.ent = all, !.nb = IF st.na + 1 = Sc.nr THEN 0 ELSE @], l + 1)

\* the particles of the system by token
Dist2(x, y) == LET s == [d \in Dim |-> (x[d] - y[d]) * (x[d] - y[d])] IN SumOf(s)
Visit ==
  /\ E.e = "visit"
  /\ \E me \in {TLCEval(CHOOSE e \in SeqRange(st.P) : e[1] = E.tok)} :
     \E x \in {TLCEval(Wrap(me))} :
     \E want \in {TLCEval(UNION {LET e == st.P[i] y == Wrap(e)
                      IN {<<e[1]>> \o Moved(y, s) : s \in {s \in Shifts : 4 * Dist2(x, Moved(y, s)) <= (me[5] + e[5]) * (me[5] + e[5])}}
                      : i \in DOMAIN st.P})} :
     Goto(
      /\ Pre("phases", st.na = Sc.nr)
      /\ Chk("C17", "each particle visited once", E.tok \notin st.seen)
      /\ Chk("C17", "neighbours across the boundaries", SeqRange(E.nb) = want /\ NoDup(E.nb)),
      [st EXCEPT !.nv = @ + 1, !.seen = @ \cup {E.tok}], l + 1)

Finish ==
  /\ E.e = "finish"
  /\ Goto(
      /\ Chk("C17", "the run ends normally", E.ok)
      /\ Chk("C17", "every particle has been visited", st.it > 0 => st.nv = Sc.n), st, l + 1)

Init == l = 1 /\ st = [sc |-> 1]
Step == Scenario \/ Before \/ After \/ Visit \/ Finish
Spec == Init /\ [][RunNext(Step)]_vars
=============================================================================
